------------------------------- MODULE Choice -------------------------------
(* Which codec the automatic mode takes, from the errors and sizes of the     *)
(* candidates. An error may be too close to the bound to tell on which side   *)
(* the rounded measurement falls: may, sure and size are functions of the     *)
(* candidate (may be within the bound; is within it however rounded; bytes).  *)
EXTENDS Integers

Candidates == {"fft", "polynomial", "rle"}
\* level 1 looks at the first 4096 samples, each further one at half as many; level 0 at all, however many
Prefix(level) == CASE level = 1 -> 4096 [] level = 2 -> 2048 [] level = 3 -> 1024 [] level = 4 -> 512 [] level = 5 -> 256 [] level = 6 -> 128
Sampled(level, n) == level > 0 /\ n >= Prefix(level)
\* those that can be found smallest
Smallest(may, sure, size) == {c \in Candidates : may[c] /\ \A d \in Candidates : sure[d] => size[c] <= size[d]}
\* those that can be stored once the samples looked at suggest one of sug: the suggested one if it holds on the frame,
\* or else the one that holds whatever the bound
Stored(sug, may, sure) == {c \in sug : may[c]} \cup (IF \E c \in sug : ~sure[c] THEN {"polynomial"} ELSE {})
=============================================================================
