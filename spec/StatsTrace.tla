------------------------------ MODULE StatsTrace ------------------------------
(* Judges the statistics computed by the code for series of samples.          *)
EXTENDS Stats, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Judge(ev) ==
  IF ev.fails THEN "the statistics fail"
  ELSE IF ~Least(ev.min, ev.s) THEN "least value"
  ELSE IF ~Greatest(ev.max, ev.s) THEN "greatest value"
  ELSE IF ~Stands(ev.min, ev.minat, ev.s) THEN "position of the least value"
  ELSE IF ~Stands(ev.max, ev.maxat, ev.s) THEN "position of the greatest value"
  ELSE IF ~IsMean(ev.mean, ev.s) THEN "mean"
  ELSE IF ev.fractional # Fractional(ev.s) THEN "fraction"
  ELSE IF ev.bitdepth # Narrowest(ev.s) THEN "not the narrowest type that holds every value"
  ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
