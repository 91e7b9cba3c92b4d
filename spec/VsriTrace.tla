----------------------------- MODULE VsriTrace -----------------------------
(* Judges recorded sessions with the time index. A session is a sequence of   *)
(* operations and what each of them answered. What the index then stands for  *)
(* is the history of the timestamps it said it accepted.                      *)
EXTENDS Vsri, TLC, Json, IOUtils

CONSTANT Prop
VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r

\* ev.ops[k] = [op, t | ts], ev.obs[k] = [r | rs | query]
Appended(o, b) ==         \* <<timestamp, answer>> of an operation
  CASE o.op = "append" -> <<<<o.t, b.r>>>>
    [] o.op = "appends" -> [j \in 1..Len(o.ts) |-> <<o.ts[j], IF b.rs[j] = 1 THEN "ok" ELSE IF b.rs[j] = 0 THEN "err" ELSE "panic">>]
    [] OTHER -> <<>>
Accepted(as) == LET ok == SelectSeq(as, LAMBDA a : a[2] = "ok") IN [j \in 1..Len(ok) |-> ok[j][1]]

------------------------------------------------------------------------------
\* one query against a history
Answers(h, q) ==
  CASE Prop = "C15" ->
         IF q.count # Len(h) THEN "number of samples"
         ELSE IF q.all # h THEN "all timestamps"
         ELSE IF \E k \in 1..Len(q.xs) : q.time[k] # TimeAt(h, q.xs[k]) THEN "timestamp of a position"
         ELSE IF \E k \in 1..Len(q.ts) : q.sample[k] # Exact(h, q.ts[k]) THEN "position of a timestamp"
         ELSE ""
    [] Prop = "C16" -> IF h # <<>> /\ (q.min # h[1] \/ q.max # h[Len(h)]) THEN "minimum or maximum" ELSE ""
    [] Prop = "C17" ->
         IF h = <<>> THEN ""
         ELSE IF \E k \in 1..Len(q.ts) : q.next[k] # ThisOrNext(h, q.ts[k]) THEN "this or next"
         ELSE IF \E k \in 1..Len(q.ts) : q.prev[k] # ThisOrPrevious(h, q.ts[k]) THEN "this or previous"
         ELSE ""
    [] Prop = "C18" ->
         LET rs == Runs(h)
         IN IF \E k \in 1..Len(q.empty) : q.empty[k][3] = 2 THEN "the query fails"
            ELSE IF \E k \in 1..Len(q.empty) : q.empty[k][3] = 1 /\ Inhabited(h, q.empty[k][1], q.empty[k][2])
            THEN "reported empty, but it has a sample"
            ELSE IF \E k \in 1..Len(q.empty) : q.empty[k][3] = 0 /\ MustBeEmpty(h, rs, q.empty[k][1], q.empty[k][2])
            THEN "not reported empty"
            ELSE ""
    [] OTHER -> ""

\* answers to the timestamps, given in order (all that matters of a history is its latest timestamp)
AcceptOk(h0, as) ==
  LET r == FoldLeft(LAMBDA s, a :
             IF s.bad # "" THEN s
             ELSE IF (a[2] = "ok") # Accepts(s.latest, a[1]) \/ a[2] = "panic"
             THEN [s EXCEPT !.bad = IF a[2] = "ok" THEN "accepted a timestamp that it must refuse" ELSE "refused a timestamp that it must accept"]
             ELSE IF a[2] = "ok" THEN [s EXCEPT !.latest = <<a[1]>>] ELSE s,
             [latest |-> IF h0 = <<>> THEN <<>> ELSE <<h0[Len(h0)]>>, bad |-> ""], as)
  IN [h |-> h0 \o Accepted(as), bad |-> r.bad]

Step(s, k, ev) ==
  IF s.bad # "" THEN s
  ELSE LET o == ev.ops[k]
           b == ev.obs[k]
           as == Appended(o, b)
       IN IF \E j \in 1..Len(as) : as[j][2] = "panic" THEN [s EXCEPT !.bad = "an append fails"]
          ELSE IF o.op = "query"
          THEN IF ~Valid(s.h) THEN s                 \* the index took what it must refuse: that is for C16
               ELSE IF Prop = "C16" /\ k > 2 /\ ev.ops[k - 2].op = "query" /\ ev.ops[k - 1].op = "append" /\ ev.obs[k - 1].r = "err"
                       /\ ev.ops[k - 2] = o /\ ev.obs[k - 2] # b
               THEN [s EXCEPT !.bad = "a refused timestamp changes an answer"]
               ELSE [s EXCEPT !.bad = Answers(s.h, b)]
          ELSE IF Prop = "C16" THEN AcceptOk(s.h, as)
          ELSE [s EXCEPT !.h = s.h \o Accepted(as)]
JudgeSession(ev) ==
  IF Has(ev, "died") THEN "the session fails"
  ELSE FoldLeft(LAMBDA s, k : Step(s, k, ev), [h |-> <<>>, bad |-> ""], [k \in 1..Len(ev.ops) |-> k]).bad

------------------------------------------------------------------------------
(* With saves and reloads: the index must answer as an index that was never   *)
(* saved, given the timestamps that survive (a reload goes back to the last   *)
(* save; a new index starts from nothing, whatever file is there). ev.ref is  *)
(* the recorded session of that other index: one bulk of appends, then the    *)
(* same query.                                                                *)
Survivors(ev) ==
  FoldLeft(LAMBDA s, k :
    LET o == ev.ops[k] IN
    CASE o.op = "append" -> [s EXCEPT !.mem = Append(s.mem, o.t)]
      [] o.op = "appends" -> [s EXCEPT !.mem = s.mem \o o.ts]
      [] o.op = "save" -> [s EXCEPT !.disk = s.mem]
      [] o.op = "load" -> [s EXCEPT !.mem = s.disk]
      [] o.op = "new" -> [s EXCEPT !.mem = <<>>]
      [] OTHER -> s, [mem |-> <<>>, disk |-> <<>>], [k \in 1..Len(ev.ops) |-> k])
LastQuery(ev) == ev.obs[CHOOSE k \in 1..Len(ev.ops) : ev.ops[k].op = "query" /\ \A j \in (k + 1)..Len(ev.ops) : ev.ops[j].op # "query"]
\* the answers to the timestamps that survive
SurvivingAnswers(ev) ==
  FoldLeft(LAMBDA s, k :
    LET o == ev.ops[k]
        as == Appended(o, ev.obs[k])
        rs == [j \in 1..Len(as) |-> IF as[j][2] = "ok" THEN 1 ELSE IF as[j][2] = "err" THEN 0 ELSE 2]
    IN CASE o.op = "save" -> [s EXCEPT !.disk = s.mem]
         [] o.op = "load" -> [s EXCEPT !.mem = s.disk]
         [] o.op = "new" -> [s EXCEPT !.mem = <<>>]
         [] OTHER -> [s EXCEPT !.mem = s.mem \o rs], [mem |-> <<>>, disk |-> <<>>], [k \in 1..Len(ev.ops) |-> k]).mem
JudgeReload(ev) ==
  IF Has(ev, "died") THEN "the session fails"
  ELSE
  LET s == Survivors(ev)
  IN IF \E k \in 1..Len(ev.ops) : ev.ops[k].op \in {"save", "load"} /\ ev.obs[k].r # TRUE THEN "saving or loading fails"
     ELSE IF ev.ref.ops[1].ts # s.mem THEN "(recorder) not the surviving timestamps"
     ELSE IF SurvivingAnswers(ev) # ev.ref.obs[1].rs THEN "other timestamps are accepted"
     ELSE IF LastQuery(ev) # ev.ref.obs[2] THEN "other answers than without the reload"
     ELSE IF \E k \in 1..Len(ev.ops) : ev.ops[k].op = "where" /\ (k < 3 \/ ev.ops[k - 2].op # "save" \/ ev.ops[k - 1].op # "query")
          THEN "(recorder) look up"
     ELSE IF \E k \in 1..Len(ev.ops) : ev.ops[k].op = "where" /\ ev.obs[k].where # ev.obs[k - 1].sample
          THEN "looked up through the file"
     ELSE ""

Judge(ev) == IF Prop = "C19" THEN JudgeReload(ev) ELSE JudgeSession(ev)
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
