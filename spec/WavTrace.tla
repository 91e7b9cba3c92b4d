------------------------------ MODULE WavTrace ------------------------------
(* Judges recorded conversions. With frames: a WAV file that holds them. If   *)
(* not: a file whose first bytes are head, cut: a WAV file cut short. others: *)
(* what else is in the directory, before and after, the input file included.  *)
EXTENDS Wav, TLC, Json, IOUtils

CONSTANT Prop
VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Judge(ev) ==
  IF Has(ev, "frames")
  THEN IF ev.rc # 0 THEN "the command fails"
       ELSE IF ev.others[1] # ev.others[2] THEN "something else is changed"
       ELSE IF ~Has(ev, "out") THEN "no readable output"
       ELSE IF ev.out # Series(ev.frames) THEN "samples"
       ELSE ""
  ELSE IF IsWav(ev.head) /\ ~ev.cut THEN ""
  ELSE IF ev.others[1] # ev.others[2] THEN "something is changed"
  ELSE IF ev.made THEN "output is written"
  ELSE IF ev.rc = 0 THEN "success is reported"
  ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
