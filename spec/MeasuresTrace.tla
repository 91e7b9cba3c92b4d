---------------------------- MODULE MeasuresTrace ----------------------------
(* Judges the measures computed by the code for pairs of series.              *)
EXTENDS Measures, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Judge(ev) ==
  IF Len(ev.o) # Len(ev.g)
  THEN (IF ev.panics = 6 THEN "" ELSE "series of different lengths are compared")
  ELSE IF ev.panics # 0 THEN "a measure fails"
  ELSE IF Len(ev.o) = 0 THEN ""
  ELSE IF ~IsMape(ev.mape, ev.o, ev.g) THEN "mean absolute percentage error"
  ELSE IF ~IsMape(ev.deflt, ev.o, ev.g) THEN "default measure"
  ELSE IF ~IsMae(ev.mae, ev.o, ev.g) THEN "mean absolute error"
  ELSE IF ~IsMse(ev.mse, ev.o, ev.g) THEN "mean squared error"
  ELSE IF ~IsNmse(ev.nmse, ev.o, ev.g) THEN "normalised mean squared error"
  ELSE IF ~IsSmape(ev.smape, ev.o, ev.g) THEN "symmetric mean absolute percentage error"
  ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
