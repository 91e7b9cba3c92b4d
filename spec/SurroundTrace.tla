--------------------------- MODULE SurroundTrace ---------------------------
(* Judges recorded runs of commands in surroundings out of the ordinary:      *)
(* plain is the run in ordinary ones, there the run elsewhere; each has the   *)
(* status, the tree after it, and what was printed (a token; "unseen" if      *)
(* there was nowhere to print it). Both start from the same tree.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Tree(seq) == {seq[k] : k \in 1..Len(seq)}
Judge(ev) ==
  IF (ev.plain.rc = 0) # (ev.there.rc = 0) THEN "another status"
  ELSE IF Tree(ev.plain.fs) # Tree(ev.there.fs) THEN "other files"
  ELSE IF ev.plain.rc = 0 /\ "unseen" \notin {ev.plain.printed, ev.there.printed} /\ ev.plain.printed # ev.there.printed THEN "something else is printed"
  ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
