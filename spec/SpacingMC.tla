----------------------------- MODULE SpacingMC ------------------------------
(* The order of trials, for every length: ever more samples are kept, in the  *)
(* end all of them, and a distance fits the byte that the format has for it.  *)
EXTENDS Spacing, TLC

CONSTANTS Upto, Beyond
VARIABLE n

Lengths == (1..Upto) \cup Beyond
Init == n \in Lengths
Next == UNCHANGED n
Closer == \A r \in 1..(Rounds - 1) : /\ Distance(n, Points(n, r + 1)) <= Distance(n, Points(n, r))
                                     /\ Kept(n, Points(n, r + 1)) >= Kept(n, Points(n, r))
                                     /\ Counts(n, r + 1) > Counts(n, r)
\* nothing has to be given up: all samples are kept before the rounds run out
AllInTheEnd == \E r \in 1..(Rounds - 1) : Kept(n, Points(n, r)) = n
OneByte == \A d \in Distances(n) : d \in 1..255
EndsKept == \A r \in 1..Rounds : Kept(n, Points(n, r)) \in 1..n
Sparse == n >= 300 => Kept(n, Points(n, 1)) * 50 <= n + 100
=============================================================================
