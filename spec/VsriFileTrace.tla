--------------------------- MODULE VsriFileTrace ---------------------------
(* Judges the files of time indexes. A writer's session: operations, and the  *)
(* text of the file after each save, which must stand for the timestamps      *)
(* accepted so far. A reader's session: a file written by anyone is put in    *)
(* place and loaded; the index answers as one that was given the samples.     *)
EXTENDS VsriFile, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r

Accepted(o, b) ==
  CASE o.op = "append" -> IF b.r = "ok" THEN <<o.t>> ELSE <<>>
    [] o.op = "appends" -> LET ok == SelectSeq([j \in 1..Len(o.ts) |-> j], LAMBDA j : b.rs[j] = 1) IN [j \in 1..Len(ok) |-> o.ts[ok[j]]]
    [] OTHER -> <<>>
JudgeWriter(ev) ==
  FoldLeft(LAMBDA s, k :
    LET o == ev.ops[k]
        b == ev.obs[k]
    IN IF s.bad # "" THEN s
       ELSE CASE o.op = "save" -> IF b.r # TRUE THEN [s EXCEPT !.bad = "saving fails"]
                                  ELSE IF ~ReadFile(b.text).ok THEN [s EXCEPT !.bad = "not the layout of an index file"]
                                  ELSE IF ~Denotes(ReadFile(b.text), s.h) THEN [s EXCEPT !.bad = "the file does not stand for the accepted timestamps"]
                                  ELSE [s EXCEPT !.disk = s.h]
              [] o.op = "load" -> IF b.r # TRUE THEN [s EXCEPT !.bad = "loading fails"] ELSE [s EXCEPT !.h = s.disk]
              [] o.op = "new" -> [s EXCEPT !.h = <<>>]
              [] OTHER -> [s EXCEPT !.h = s.h \o Accepted(o, b)],
    [h |-> <<>>, disk |-> <<>>, bad |-> ""], [k \in 1..Len(ev.ops) |-> k]).bad

\* the answers, but for ranges between runs (where the division into runs may show)
Same(q, r, alike) ==
  /\ [q EXCEPT !.empty = <<>>] = [r EXCEPT !.empty = <<>>]
  /\ alike => q.empty = r.empty
Greedy(segs, h) == segs = [k \in 1..Len(Runs(h)) |-> <<Runs(h)[k].m, Runs(h)[k].x, Runs(h)[k].from, Runs(h)[k].n>>]
\* ops: put, load, query, where, appends, query; those of the other index: appends, query, appends, query
JudgeReader(ev) ==
  LET f == ReadFile(ev.ops[1].text)
      h == Expand(f.segs)
      o == ev.obs
      r == ev.ref.obs
  IN IF ~Denotes(f, h) \/ ~Valid(h) \/ ev.ref.ops[1].ts # h THEN "(recorder) not a file of an index"
     ELSE IF \E k \in 1..Len(r[1].rs) : r[1].rs[k] # 1 THEN ""          \* the other index does not take the samples: that is for C16
     ELSE IF o[2].r # TRUE THEN "the file is refused"
     ELSE IF ~Same(o[3], r[2], Greedy(f.segs, h)) THEN "other answers than an index of the samples"
     ELSE IF \E k \in 1..Len(o[3].empty) : o[3].empty[k][3] = 1 /\ Inhabited(h, o[3].empty[k][1], o[3].empty[k][2]) THEN "reported empty, but it has a sample"
     ELSE IF o[4].where # r[2].sample THEN "looked up through the file"
     ELSE IF o[5].rs # r[3].rs THEN "other timestamps are accepted"
     ELSE IF ~Same(o[6], r[4], FALSE) THEN "other answers after further timestamps"
     ELSE ""
Judge(ev) == IF Has(ev, "died") THEN "the session fails" ELSE IF ev.k = "writer" THEN JudgeWriter(ev) ELSE JudgeReader(ev)
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
