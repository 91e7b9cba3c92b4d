------------------------------ MODULE Spectrum ------------------------------
(* The frequencies of a frame: its discrete Fourier transform, after it has   *)
(* been extended at both ends by its first and last sample if it has 128      *)
(* samples or more. For integer samples up to 100 and lengths of transforms   *)
(* that divide 15552, coefficients are integers in units of 2^-12.            *)
EXTENDS Recon, Cosines

Wave == 15552
CosU(k) ==
  LET q == k % Wave
  IN IF q <= 3888 THEN QuarterWave[q + 1]
     ELSE IF q <= 7776 THEN 0 - QuarterWave[7777 - q]
     ELSE IF q <= 11664 THEN 0 - QuarterWave[q - 7775]
     ELSE QuarterWave[15553 - q]
SinU(k) == CosU(k + 11664)

Repeat(x, k) == [j \in 1..k |-> x]
Extended(s) ==
  LET n == Len(s)
      nn == Padded(n)
      pre == (nn - n) \div 2
  IN Repeat(s[1], pre) \o s \o Repeat(s[n], nn - n - pre)

\* <<real, imaginary>> of frequency f of the extended series x (integers); upper and lower 12 bits of the table apart
Coef(x, f) ==
  LET nn == Len(x)
      u == Wave \div nn
      sum == FoldLeft(LAMBDA a, j :
               LET k == ((f * (j - 1)) % nn) * u
                   c == CosU(k)
                   d == SinU(k)
               IN <<a[1] + x[j] * (c \div 4096), a[2] + x[j] * (c % 4096),
                    a[3] - x[j] * (d \div 4096), a[4] - x[j] * (d % 4096)>>,
               <<0, 0, 0, 0>>, [j \in 1..nn |-> j])
  IN <<sum[1] + (sum[2] \div 4096), sum[3] + (sum[4] \div 4096)>>
Transform(x) == FoldLeft(LAMBDA acc, f : Append(acc, Coef(x, f)), <<>>, [f \in 1..(Len(x) \div 2 + 1) |-> f - 1])

AbsI(n) == IF n < 0 THEN 0 - n ELSE n
Power(c) == LET a == NatB(AbsI(c[1])) b == NatB(AbsI(c[2])) IN Add(Mul(a, a), Mul(b, b))
AbsSum(x) == FoldLeft(LAMBDA a, v : a + AbsI(v), 0, x)
\* what the arithmetic in single precision may add to a part of a coefficient
Unsure(x) == 4 + AbsSum(x) \div 256
\* c may be at least as strong as d
AsStrong(c, d, tol) ==
  Cmp(Add(Power(c), NatB(4 * tol * tol)), Power(d)) >= 0
  \/ Cmp(Add(Power(c), Add(Mul(NatB(4 * tol), NatB(AbsI(c[1]) + AbsI(c[2]))), NatB(8 * tol * tol))), Power(d)) >= 0
Budget(n) == IF n \div 100 > 3 THEN n \div 100 ELSE 3
=============================================================================
