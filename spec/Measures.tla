------------------------------ MODULE Measures ------------------------------
(* The error measures between two series, exactly. A non-negative dyadic      *)
(* number is <<n, p>> = n * 2^p with a natural number n of any size.          *)
EXTENDS F64

DZero == <<<<>>, 0>>
DAdd(a, b) == IF a[1] = <<>> THEN b ELSE IF b[1] = <<>> THEN a
              ELSE LET p == MinI(a[2], b[2]) IN <<Add(Shl(a[1], a[2] - p), Shl(b[1], b[2] - p)), p>>
DMul(a, b) == <<Mul(a[1], b[1]), a[2] + b[2]>>
DTimes(a, k) == <<Mul(a[1], NatB(k)), a[2]>>
DLeq(a, b) == IF a[1] = <<>> THEN TRUE ELSE IF b[1] = <<>> THEN FALSE
              ELSE LET p == MinI(a[2], b[2]) IN Cmp(Shl(a[1], a[2] - p), Shl(b[1], b[2] - p)) <= 0
Mag(x) == IF IsZero(x) THEN DZero ELSE <<Mant(x), Pow(x)>>
Diff(x, y) == IF IsZero(x) THEN Mag(y) ELSE IF IsZero(y) THEN Mag(x) ELSE AbsDiff(x, y)
\* equal up to one part in 2^32
Close(a, b) == /\ DLeq(a, DAdd(b, <<b[1], b[2] - 32>>))
               /\ DLeq(b, DAdd(a, <<a[1], a[2] - 32>>))
Sum(f(_), n) == FoldLeft(LAMBDA acc, k : DAdd(acc, f(k)), DZero, [k \in 1..n |-> k])
Square(a) == DMul(a, a)

\* a reported value r (a double) is the measure
SumAbs(o, g) == LET d(k) == Diff(o[k], g[k]) IN Sum(d, Len(o))
SumSquares(o, g) == LET d(k) == Square(Diff(o[k], g[k])) IN Sum(d, Len(o))
Power(o) == LET s(k) == Square(Mag(o[k])) IN Sum(s, Len(o))
Plain(r) == IsFinite(r) /\ (~Neg(r) \/ IsZero(r))
IsMae(r, o, g) == Plain(r) /\ Close(DTimes(Mag(r), Len(o)), SumAbs(o, g))
IsMse(r, o, g) == Plain(r) /\ Close(DTimes(Mag(r), Len(o)), SumSquares(o, g))
IsNmse(r, o, g) == IF Power(o)[1] = <<>> THEN ~IsFinite(r)
                   ELSE Plain(r) /\ Close(DMul(Mag(r), Power(o)), SumSquares(o, g))
\* the mean of the relative errors, as in C06
IsMape(r, o, g) ==
  LET sum == SumErr(o, g)
      n == Len(o)
  IN IF sum = Infinite THEN ~IsFinite(r)
     ELSE /\ Plain(r)
          /\ LET have == MulS(UnitsOf(r), n)
                 u == SumUnits(sum)
                 tol == Add(Shr(u, 20), NatB(2 * n))
             IN IF sum[1] >= 1048576 THEN Cmp(have, Shr(u, 1)) >= 0
                ELSE Cmp(have, Add(u, tol)) <= 0 /\ Cmp(u, Add(have, tol)) <= 0
\* the mean of |g - o| / (|o| + |g|), two zeros counting as no error; at most 1
SymErr(o, g) ==
  LET term(k) == LET den == DAdd(Mag(o[k]), Mag(g[k]))
                     num == Diff(o[k], g[k])
                     p == MinI(den[2], num[2])
                 IN IF den[1] = <<>> \/ num[1] = <<>> THEN <<0, 0>>
                    ELSE Ratio(Shl(num[1], num[2] - p), Shl(den[1], den[2] - p))
  IN FoldLeft(LAMBDA acc, k : LET t == term(k) IN <<acc[1] + t[1] + (acc[2] + t[2]) \div Unit24, (acc[2] + t[2]) % Unit24>>,
              <<0, 0>>, [k \in 1..Len(o) |-> k])
IsSmape(r, o, g) ==
  LET n == Len(o)
      have == MulS(UnitsOf(r), n)
      u == SumUnits(SymErr(o, g))
      tol == Add(Shr(u, 20), NatB(2 * n))
  IN Plain(r) /\ Cmp(have, Add(u, tol)) <= 0 /\ Cmp(u, Add(have, tol)) <= 0
=============================================================================
