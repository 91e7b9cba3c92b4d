---------------------------- MODULE SettingsTrace ----------------------------
(* Judges recorded runs of the compression commands. A run: tool, s, rc,      *)
(* files (the tree before and after), out (what stands under the name of the  *)
(* output), and lib: what the library makes of the series, with lib.at the    *)
(* settings it was given.                                                     *)
EXTENDS Settings, Json, IOUtils

VARIABLES i, done

Events == JsonDeserialize(IOEnv.TRACE)
Judge(ev) ==
  IF Refused(ev.tool, ev.s)
  THEN IF ev.rc = 0 THEN "a setting that does not exist is accepted"
       ELSE IF ev.files[1] # ev.files[2] THEN "a refused command changes files" ELSE ""
  ELSE IF ev.lib.at # Meaning(ev.tool, ev.s) THEN "(recorder) other settings"
  ELSE IF ev.rc # 0 THEN "settings are refused"
  ELSE IF ev.out # ev.lib.out THEN "not compressed with these settings"
  ELSE ""
Init == i \in 1..Len(Events) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ LET v == Judge(Events[i]) IN v # "" => PrintT("@" \o ToJson([reject |-> i, why |-> v]))
=============================================================================
