------------------------------ MODULE IoTrace ------------------------------
(* Judges recorded runs of commands under a system that behaves as in         *)
(* IoFaults. acts: what became of the calls that did not get what they asked  *)
(* for. init, fs, fs2: the tree before, after the run, and after another run  *)
(* with nothing in its way (if the first did not succeed). full: the outputs, *)
(* as [name, token]. lost: listing a directory failed.                        *)
EXTENDS Cli, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Tree(seq) == {seq[k] : k \in 1..Len(seq)}
Names(fs) == {f[1] : f \in fs}
Judge(ev) ==
  LET init == Tree(ev.init)
      fs == Tree(ev.fs)
      full == Tree(ev.full)
      acts == Tree(ev.acts)
      kept(t) == {f \in init : f[1] \notin Names(full)} \subseteq t
      complete(t) == full \subseteq t
  IN IF ~kept(fs) THEN "an input or another file is changed"
     ELSE IF ev.rc = 0 /\ ev.lost THEN "success is reported, but the directory could not be listed"
     ELSE IF ev.rc = 0 /\ ~complete(fs) THEN "success is reported, but an output is not complete"
     ELSE IF ev.rc = 0 /\ Names(fs) # Names(init) \cup Names(full) THEN "another file is left"
     ELSE IF ev.rc # 0 /\ acts \subseteq {"short", "one"} THEN "files delivered in pieces make it fail"
     ELSE IF ev.rc = 0 THEN ""
     ELSE IF ~kept(Tree(ev.fs2)) THEN "an input or another file is changed by another run"
     ELSE IF ev.rc2 # 0 THEN "it fails when run again"
     ELSE IF ~complete(Tree(ev.fs2)) THEN "the outputs are not complete when it is run again"
     ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
