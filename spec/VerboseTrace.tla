---------------------------- MODULE VerboseTrace ----------------------------
(* Judges what the command printed: lines, each a label and samples; given:   *)
(* the samples of each of its files.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Label(r) == IF r.front = "bro" THEN "Output" ELSE "Input"
Count(x, s) == Cardinality({k \in 1..Len(s) : s[k] = x})
Judge(ev) ==
  LET want == ev.given
      got == [k \in 1..Len(ev.lines) |-> ev.lines[k].of]
  IN IF ev.rc # 0 THEN "the command fails"
     ELSE IF ~ev.run.verbose THEN (IF got = <<>> THEN "" ELSE "samples are printed, unasked")
     ELSE IF \E k \in 1..Len(got) : ev.lines[k].label # Label(ev.run) THEN "label"
     ELSE IF Len(got) # Len(want) THEN "not a line for each file"
     ELSE IF \E k \in 1..Len(want) : Count(want[k], want) # Count(want[k], got) THEN "other samples"
     ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
