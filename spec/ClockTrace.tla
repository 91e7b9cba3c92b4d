----------------------------- MODULE ClockTrace -----------------------------
(* Judges the seconds of the day and the beginnings of days the code gives.   *)
(* Times are [day, sec]; the code's answers have been divided in the same way. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Judge(ev) == IF ev.elapsed # ev.t.sec THEN "seconds of the day"
             ELSE IF ev.start # [day |-> ev.t.day, sec |-> 0] THEN "beginning of the day"
             ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
