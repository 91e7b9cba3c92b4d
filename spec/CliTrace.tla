------------------------------ MODULE CliTrace ------------------------------
(* Judges recorded runs of the commands. Trees are sequences of               *)
(* [name codes, content token]; heads gives the first bytes of each content.  *)
EXTENDS Cli, TLC, Json, IOUtils

CONSTANT Prop
VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Tree(seq) == {seq[k] : k \in 1..Len(seq)}
Kind(ev, token) == IF token = "dir" THEN "dir" ELSE KindOf(ev.heads[token])
KindAt(ev, fs, name) == IF Has(fs, name) THEN Kind(ev, Get(fs, name)) ELSE "absent"
Wanted(cmd) == IF cmd = "compress" THEN "wbro" ELSE "bro"
OutExt(cmd) == IF cmd = "decompress" THEN WbroExt ELSE BroExt
\* ev.tables: by command (csv, plain: without a header), the contents that are tables with a series in them
Eligible(ev, fs, st) == IF st.cmd \in {"csv", "plain"} THEN Has(fs, st.name) /\ \E k \in 1..Len(ev.tables[st.cmd]) : ev.tables[st.cmd][k] = Get(fs, st.name)
                        ELSE KindAt(ev, fs, st.name) = Wanted(st.cmd)

\* the status that is recorded for a command that was still running after a minute
Hangs(rc) == rc = 1000

------------------------------------------------------------------------------
(* seq: a sequence of commands on one tree. Each step has cmd, name, rc, lib  *)
(* (what the library makes of the content), fs (the tree after it).           *)
StepOk(ev, before, st) ==
  LET after == Tree(st.fs)
      eligible == Eligible(ev, before, st)
      out == WithExt(st.name, OutExt(st.cmd))
  IN IF Hangs(st.rc) THEN "the command does not end"
     ELSE IF ~eligible THEN (IF after = before THEN "" ELSE "a file is created or changed although the input is missing or of another kind")
     ELSE IF st.rc # 0 THEN "the command fails"
     ELSE IF ~Has(after, out) THEN "no output"
     ELSE IF Get(after, out) # st.lib THEN "not the output of the library"
     ELSE IF after # Put(before, out, st.lib) THEN "another file is created, changed or removed"
     ELSE ""
JudgeSeq(ev) ==
  FoldLeft(LAMBDA s, k : IF s.bad # "" THEN s
                         ELSE [fs |-> Tree(ev.steps[k].fs), bad |-> StepOk(ev, s.fs, ev.steps[k])],
           [fs |-> Tree(ev.init), bad |-> ""], [k \in 1..Len(ev.steps) |-> k]).bad

------------------------------------------------------------------------------
(* dir: a command on a directory, and on each of its files separately (each   *)
(* time from the same tree).                                                  *)
Changes(from, to) == {f \in to : f \notin from}
JudgeDir(ev) ==
  LET before == Tree(ev.init)
      after == Tree(ev.fs)
      ones == {k \in 1..Len(ev.ones) : In(ev.dir, ev.ones[k].name)}
      changed == UNION {Changes(before, Tree(ev.ones[k].fs)) : k \in ones}
      touched == {f[1] : f \in changed}
  IN IF Hangs(ev.rc) \/ \E k \in 1..Len(ev.ones) : Hangs(ev.ones[k].rc) THEN "a command does not end"
     ELSE IF \E k \in ones : ~({f[1] : f \in before} \subseteq {f[1] : f \in Tree(ev.ones[k].fs)}) THEN "a file is removed"
     ELSE IF \E f \in after : f \notin changed /\ (f \notin before \/ f[1] \in touched) THEN "a change that no file by itself makes"
     ELSE IF \E n \in touched : ~Has(after, n) THEN "a file is not processed"
     ELSE IF \E f \in before : ~Has(after, f[1]) THEN "a file is removed"
     ELSE IF ev.cmd \in {"compress", "decompress"}
             /\ \E f \in before : In(ev.dir, f[1]) /\ Kind(ev, f[2]) = Wanted(ev.cmd) /\ ~Has(after, WithExt(f[1], OutExt(ev.cmd)))
          THEN "an eligible file is not processed"
     ELSE IF ev.cmd \in {"compress", "decompress"}
             /\ \E k \in ones : KindAt(ev, before, ev.ones[k].name) # Wanted(ev.cmd) /\ Tree(ev.ones[k].fs) # before
          THEN "a file of another kind is processed"
     ELSE ""

------------------------------------------------------------------------------
(* limit: a command whose writes are cut short. outs: [full, got] tokens      *)
JudgeLimit(ev) ==
  IF ev.rc = 0 /\ \E k \in 1..Len(ev.outs) : ev.outs[k].got # ev.outs[k].full
  THEN "success is reported, but an output is not complete" ELSE ""

Judge(ev) == CASE ev.k = "seq" -> JudgeSeq(ev)
               [] ev.k = "dir" -> JudgeDir(ev)
               [] ev.k = "limit" -> JudgeLimit(ev)
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
