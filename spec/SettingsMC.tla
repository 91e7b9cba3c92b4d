----------------------------- MODULE SettingsMC -----------------------------
(* Every command line, setting by setting, and what it stands for.            *)
EXTENDS Settings, Json

CONSTANTS MaxError
VARIABLES tool, s, want

vars == <<tool, s, want>>
OddModes == {"Auto", "none", "poly", "FFT"}
OddNumbers == {"51", "256", "-1", "3.5", "abc"}
OddLevels == {"7", "256", "-1", "0.5"}
Errors == {""} \cup Numbers(MaxError) \cup Numbers(2) \cup {"49", "50"}
Levels == {""} \cup Numbers(6)
Start == [mode |-> "", e |-> "", level |-> ""]
No == [mode |-> "refused", e |-> 0, level |-> 0]
Say == PrintT("@" \o ToJson([tool |-> tool', s |-> s', want |-> want']))
Init == tool \in {"atsc", "csv-compressor"} /\ s = Start /\ want = [mode |-> "auto", e |-> DefaultError(tool), level |-> 0]
Set(t) == s' = t /\ want' = (IF Refused(tool, t) THEN No ELSE Meaning(tool, t)) /\ UNCHANGED tool /\ Say
\* options are given one after another
Next == \/ s = Start /\ \E m \in Modes(tool) \cup OddModes \cup (IF tool = "atsc" THEN {} ELSE {"rle"}) : Set([s EXCEPT !.mode = m])
        \/ s.e = "" /\ s.level = "" /\ \E e \in (Errors \ {""}) \cup OddNumbers : Set([s EXCEPT !.e = e])
        \/ s.level = "" /\ \E l \in (Levels \ {""}) \cup OddLevels : Set([s EXCEPT !.level = l])

InRange == want = No \/ (want.mode \in Modes(tool) /\ want.e \in 0..50 /\ want.level \in 0..6)
\* saying what is the default changes nothing, and a refused setting is not mended by another one
Defaults == s = [mode |-> "auto", e |-> ToString(DefaultError(tool)), level |-> "0"] => want = Meaning(tool, Start)
StaysRefused == [][want = No => want' = No]_vars
=============================================================================
