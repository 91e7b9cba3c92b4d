------------------------------ MODULE ConcTrace ------------------------------
(* Judges recorded runs of commands at the same time: the tree before and     *)
(* after, their statuses, and for each command the outputs it has by itself,  *)
(* as [name, token].                                                          *)
EXTENDS Cli, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Tree(seq) == {seq[k] : k \in 1..Len(seq)}
Names(fs) == {f[1] : f \in fs}
Judge(ev) ==
  LET init == Tree(ev.init)
      fs == Tree(ev.fs)
      alone == UNION {Tree(ev.alone[k]) : k \in 1..Len(ev.alone)}
  IN IF \E a, b \in alone : a[1] = b[1] /\ a # b THEN "(recorder) two commands write different files of one name"
     ELSE IF \E k \in 1..Len(ev.rc) : ev.rc[k] # 0 THEN "a command fails"
     ELSE IF Names(fs) # Names(init) \cup Names(alone) THEN "other files than those of the commands"
     ELSE IF \E f \in alone : f \notin fs THEN "not the output it has by itself"
     ELSE IF \E f \in init : f \notin fs /\ f[1] \notin Names(alone) THEN "another file is changed"
     ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
