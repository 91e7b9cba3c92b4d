------------------------------ MODULE Spacing -------------------------------
(* What the codecs with an error bound try, in this order, until the bound is *)
(* met: numbers of points asked for (interpolating codecs), and of            *)
(* frequencies (fft).                                                         *)
EXTENDS Integers, Sequences

Greater(a, b) == IF a >= b THEN a ELSE b
Rounds == 23
First(n) == Greater(3, n \div 100)
\* after round r, 17 steps of one size and then smaller ones
Steps(r, large, small) == IF r <= 18 THEN (r - 1) * large ELSE 17 * large + (r - 18) * small
Points(n, r) == First(n) + Steps(r, Greater(n \div 10, 1), Greater(n \div 100, 1))
Counts(n, r) == First(n) + Steps(r, Greater(First(n) \div 2, 1), Greater(First(n) \div 10, 1))

\* the distance of the samples kept, and how many there are with the last one
Distance(n, points) == Greater(n \div points, 1)
Kept(n, points) == LET st == Distance(n, points)
                       m == (n - 1) \div st
                   IN m + 1 + (IF m * st = n - 1 THEN 0 ELSE 1)
Distances(n) == {Distance(n, Points(n, r)) : r \in 1..Rounds}
=============================================================================
