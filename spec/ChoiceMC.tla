------------------------------ MODULE ChoiceMC ------------------------------
(* The choice of a codec at every sample level. The errors and the sizes of   *)
(* the candidates on the samples looked at and on the frame are arbitrary,    *)
(* except that two of the codecs hold any bound (ErrCtl); rounding decides    *)
(* what is too close to tell.                                                 *)
EXTENDS Choice, FiniteSets

CONSTANTS Lens, Sizes
VARIABLES n, level, ph, part, frame, seen, pick

vars == <<n, level, ph, part, frame, seen, pick>>
Sides == {"in", "out", "close"}
Measures == {m \in [err : [Candidates -> Sides], size : [Candidates -> Sizes]] : m.err["polynomial"] = "in" /\ m.err["rle"] = "in"}
May(m) == [c \in Candidates |-> m.err[c] # "out"]
Sure(m) == [c \in Candidates |-> m.err[c] = "in"]
\* what a measurement finds: each close error falls on one side
Found(m) == {h \in SUBSET Candidates : \A c \in Candidates : (m.err[c] = "in" => c \in h) /\ (m.err[c] = "out" => c \notin h)}
None == [err |-> [c \in Candidates |-> "out"], size |-> [c \in Candidates |-> 0]]

Init == n \in Lens /\ level \in 0..6 /\ ph = "start" /\ part = None /\ frame \in Measures /\ seen = "none" /\ pick = "none"
Look == /\ ph = "start"
        /\ IF Sampled(level, n) THEN (IF n = Prefix(level) THEN part' = frame ELSE part' \in Measures) ELSE part' = frame
        /\ ph' = "look" /\ UNCHANGED <<n, level, frame, seen, pick>>
Suggest == /\ ph = "look"
           /\ \E h \in Found(part) : seen' \in {c \in h : \A d \in h : part.size[c] <= part.size[d]}
           /\ ph' = "suggest" /\ UNCHANGED <<n, level, part, frame, pick>>
Store == /\ ph = "suggest"
         /\ IF Sampled(level, n)
            THEN \E h \in Found(frame) : pick' = IF seen \in h THEN seen ELSE "polynomial"
            ELSE pick' = seen
         /\ ph' = "done" /\ UNCHANGED <<n, level, part, frame, seen>>
Next == Look \/ Suggest \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what the recorded choices are judged by admits what the machine does
Judged == ph = "done" => LET sug == Smallest(May(part), Sure(part), part.size)
                         IN pick \in IF Sampled(level, n) THEN Stored(sug, May(frame), Sure(frame)) ELSE sug
\* and nothing else: with no error close to the bound the choice is among the smallest of those within the bound
Exact == ph = "done" /\ "close" \notin {part.err[c] : c \in Candidates} =>
           LET sug == Smallest(May(part), Sure(part), part.size)
           IN sug = {c \in Candidates : part.err[c] = "in" /\ \A d \in Candidates : part.err[d] = "in" => part.size[c] <= part.size[d]}
Holds == ph = "done" => frame.err[pick] # "out"
\* looking at all of the frame is the same as level 0
Whole == ph = "done" /\ n <= 128 => pick \in Smallest(May(frame), Sure(frame), frame.size) \cup {"polynomial"}
Terminates == <>(ph = "done")
=============================================================================
