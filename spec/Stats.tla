--------------------------------- MODULE Stats ---------------------------------
(* What the statistics of a series must be: its least and greatest value and  *)
(* where they stand, its mean, whether a value has a fraction, and the        *)
(* narrowest type that holds every value.                                     *)
EXTENDS Measures

Least(m, s) == (\E k \in 1..Len(s) : NumEq(m, s[k])) /\ \A k \in 1..Len(s) : Leq(m, s[k])
Greatest(m, s) == (\E k \in 1..Len(s) : NumEq(m, s[k])) /\ \A k \in 1..Len(s) : Leq(s[k], m)
\* at: counted from 0
Stands(m, at, s) == at >= 0 /\ at < Len(s) /\ NumEq(s[at + 1], m)
Fractional(s) == \E k \in 1..Len(s) : ~IsInt(s[k])
AllWithin(s, lo, hi) == \A k \in 1..Len(s) : IntBetween(s[k], lo, hi)
Narrowest(s) ==
  IF Fractional(s) THEN "F64"
  ELSE IF AllWithin(s, 0, 255) THEN "U8"
  ELSE IF AllWithin(s, -32768, 32767) THEN "I16"
  ELSE IF AllWithin(s, -2147483647 - 1, 2147483647) THEN "I32"
  ELSE "F64"

\* sums apart by sign; d is a mean up to rounding: |d * n - (pos - neg)| <= (pos + neg) / 2^34 and a little
Part(s, neg) == LET v(k) == IF Neg(s[k]) = neg THEN Mag(s[k]) ELSE DZero IN Sum(v, Len(s))
IsMean(d, s) ==
  LET pos == Part(s, FALSE)
      min == Part(s, TRUE)
      have == DTimes(Mag(d), Len(s))
      l == DAdd(pos, IF Neg(d) THEN have ELSE DZero)     \* l = r, but for rounding
      r == DAdd(min, IF Neg(d) THEN DZero ELSE have)
      all == DAdd(pos, min)
      tol == DAdd(<<all[1], all[2] - 34>>, <<NatB(Len(s)), 0 - 1074>>)   \* a mean can be too small for a double
  IN IsFinite(d) /\ DLeq(l, DAdd(r, tol)) /\ DLeq(r, DAdd(l, tol))
=============================================================================
