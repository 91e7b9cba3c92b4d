------------------------------ MODULE Settings ------------------------------
(* What the settings on a command line stand for. An option that is absent is *)
(* "". A setting means [mode, e, level]: the codec, the largest error in      *)
(* percent, and how much of the data the selection of a codec looks at.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bounded == {"auto", "fft", "polynomial", "idw"}      \* the error counts
Modes(tool) == {"auto", "noop", "fft", "constant", "polynomial", "idw"} \cup (IF tool = "atsc" THEN {"rle"} ELSE {})
Numbers(n) == {ToString(k) : k \in 0..n}
DefaultError(tool) == IF tool = "atsc" THEN 3 ELSE 5
ToNumber(s, n) == CHOOSE k \in 0..n : ToString(k) = s

Refused(tool, s) == \/ s.mode # "" /\ s.mode \notin Modes(tool)
                    \/ s.e # "" /\ s.e \notin Numbers(50)
                    \/ s.level # "" /\ s.level \notin Numbers(6)
\* settings that a codec does not look at are 0
Meaning(tool, s) ==
  LET mode == IF s.mode = "" THEN "auto" ELSE s.mode
  IN [mode |-> mode,
      e |-> IF mode \notin Bounded THEN 0 ELSE IF s.e = "" THEN DefaultError(tool) ELSE ToNumber(s.e, 50),
      level |-> IF mode # "auto" THEN 0 ELSE IF s.level = "" THEN 0 ELSE ToNumber(s.level, 6)]
=============================================================================
