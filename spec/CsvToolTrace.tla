---------------------------- MODULE CsvToolTrace ----------------------------
(* Judges recorded sequences of runs of the CSV tool on one tree. Each step   *)
(* has the run, its status, the tree after it, and parts: [rc, raw, index,    *)
(* bro, rows], what its input by itself amounts to ("none" where nothing).    *)
EXTENDS CsvTool, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Tree(seq) == {seq[k] : k \in 1..Len(seq)}
FoldersOf(fs) == {f[1] : f \in {g \in fs : g[2] = "dir"}}
KindAt(ev, fs, name) == LET t == Get(fs, name) IN IF t = "dir" THEN "dir" ELSE KindOf(ev.heads[t])
StepOk(ev, fs, st) ==
  LET r == st.run
      after == Tree(st.fs)
      foreign == r.cmd = "uncompress" /\ Has(fs, r.name) /\ KindAt(ev, fs, r.name) \notin {"bro", "dir"}
      fails == Missing(fs, r, FoldersOf(fs)) \/ NoPlace(fs, r, FoldersOf(fs)) \/ st.parts.rc # 0
      want == Written(fs, r, st.parts)
  IN IF foreign THEN (IF after = fs THEN "" ELSE "a file of another kind is processed")
     ELSE IF fails THEN (IF st.rc = 0 THEN "success, but the run cannot work"
                         ELSE IF after # fs THEN "a run that fails changes files" ELSE "")
     ELSE IF st.rc # 0 THEN "the run fails"
     ELSE IF {f[1] : f \in after} # {f[1] : f \in want} THEN "other files than those asked for"
     ELSE IF after # want THEN "a file has not what it stands for"
     ELSE ""
Judge(ev) ==
  FoldLeft(LAMBDA s, k : IF s.bad # "" THEN s ELSE [fs |-> Tree(ev.steps[k].fs), bad |-> StepOk(ev, s.fs, ev.steps[k])],
           [fs |-> Tree(ev.init), bad |-> ""], [k \in 1..Len(ev.steps) |-> k]).bad
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
