------------------------------- MODULE ErrCtl -------------------------------
(* How a maximum error is met. An interpolating codec adds knots until the    *)
(* error of what it stores is within the bound, and stores every sample when  *)
(* it runs out of rounds; the frequency codec adds frequencies and may give   *)
(* up; the automatic mode lets them compete. What each round's error turns    *)
(* out to be depends on the data: here it is arbitrary (including an error    *)
(* that is not a number), so that the guarantees below hold for every series. *)
EXTENDS Spacing, FiniteSets, TLC, Json

CONSTANTS Ns,          \* lengths of frames
          Levels,      \* errors are 0..Levels, and NaN
          Bounds
VARIABLES n, bound, level, ph, it, knots, perr, fit, ferr, fsize, psize, rsize, pick

NaN == 99
vars == <<n, bound, level, ph, it, knots, perr, fit, ferr, fsize, psize, rsize, pick>>
Errors == (0..Levels) \cup {NaN}
In(e, b) == e # NaN /\ e <= b

Init == /\ n \in Ns /\ bound \in Bounds /\ level \in 0..1
        /\ ph = "poly" /\ it = 0 /\ knots = 0 /\ perr = NaN
        /\ fit = 0 /\ ferr = NaN /\ fsize = 0 /\ psize = 0 /\ rsize = 0 /\ pick = "none"

\* one round of the interpolating codec; nothing is lost once every sample is stored
Round ==
  /\ ph = "poly"
  /\ it' = it + 1
  /\ LET k == Kept(n, Points(n, it'))
     IN \/ /\ k = n /\ knots' = n /\ perr' = 0 /\ ph' = "fft"
        \/ /\ k # n
           /\ \E e \in Errors :
                \/ /\ it' >= Rounds /\ ~In(e, bound) /\ knots' = n /\ perr' = 0 /\ ph' = "fft"
                \/ /\ it' < Rounds \/ In(e, bound)
                   /\ knots' = k /\ perr' = e
                   /\ ph' = IF In(e, bound) THEN "fft" ELSE "poly"
  /\ UNCHANGED <<n, bound, level, fit, ferr, fsize, psize, rsize, pick>>
\* the frequency codec ends within the bound or after its last round, with whatever error
Frequencies ==
  /\ ph = "fft"
  /\ ferr' \in Errors
  /\ fit' \in 1..2
  /\ ph' = "size"
  /\ UNCHANGED <<n, bound, level, it, knots, perr, fsize, psize, rsize, pick>>
Measure ==
  /\ ph = "size"
  /\ fsize' \in 1..3 /\ psize' \in 1..3 /\ rsize' \in 1..3
  /\ ph' = "choose"
  /\ UNCHANGED <<n, bound, level, it, knots, perr, fit, ferr, pick>>
\* errors and sizes of the whole frame, by candidate
E(c) == CASE c = "fft" -> ferr [] c = "polynomial" -> perr [] c = "rle" -> 0
S(c) == CASE c = "fft" -> fsize [] c = "polynomial" -> psize [] c = "rle" -> rsize
Candidates == {"fft", "polynomial", "rle"}
\* level 0: all candidates are judged on the frame. Above, a sample of the frame suggests any candidate, which is
\* kept if it is within the bound on the frame, too.
Choose ==
  /\ ph = "choose"
  /\ pick' \in IF level = 0
               THEN LET ok == {c \in Candidates : In(E(c), bound)} IN {c \in ok : \A d \in ok : S(c) <= S(d)}
               ELSE {IF In(E(c), bound) THEN c ELSE "polynomial" : c \in Candidates}
  /\ ph' = "done"
  /\ UNCHANGED <<n, bound, level, it, knots, perr, fit, ferr, fsize, psize, rsize>>
Next == Round \/ Frequencies \/ Measure \/ Choose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the interpolating codec always ends within the bound
BoundMet == ph # "poly" => In(perr, bound)
\* with a bound of 0 it stores something that is exact
FewRounds == it <= Rounds
\* the automatic mode always has a candidate, and ends within the bound
AutoMeetsBound == ph = "done" => pick \in Candidates /\ In(E(pick), bound)
AutoSmallest == (ph = "done" /\ level = 0) => \A c \in Candidates : In(E(c), bound) => S(pick) <= S(c)
Terminates == <>(ph = "done")
=============================================================================
