------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size, as little-endian sequences of limbs of 15     *)
(* bits, without leading zero limbs (so that equality is equality of          *)
(* sequences). TLC's integers have 32 bits; the samples of a series are       *)
(* IEEE-754 double precision numbers, and the specification treats them       *)
(* exactly.                                                                   *)
EXTENDS Integers, Sequences

B15 == 32768
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768,
        65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216,
        33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Pow2(k) == P2[k + 1]                                     \* 0 <= k <= 30

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NatB(_)
NatB(n) == IF n = 0 THEN <<>> ELSE <<n % B15>> \o NatB(n \div B15)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxI(x, y) == IF x >= y THEN x ELSE y
MinI(x, y) == IF x <= y THEN x ELSE y

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == Limb(a, i) + Limb(b, i) + c
       IN AddR(a, b, i + 1, s \div B15, Append(acc, s % B15))
Add(a, b) == AddR(a, b, 1, 0, <<>>)

RECURSIVE SubR(_, _, _, _, _)
SubR(a, b, i, c, acc) ==                                 \* a >= b
  IF i > Len(a) THEN Norm(acc)
  ELSE LET s == a[i] - Limb(b, i) - c
       IN SubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, IF s < 0 THEN s + B15 ELSE s))
Sub(a, b) == SubR(a, b, 1, 0, <<>>)

RECURSIVE CmpR(_, _, _)
CmpR(a, b, i) == IF i = 0 THEN 0
                 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpR(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpR(a, b, Len(a))

RECURSIVE MulSR(_, _, _, _, _)
MulSR(a, m, i, c, acc) ==
  IF i > Len(a) THEN (IF c = 0 THEN acc ELSE acc \o NatB(c))
  ELSE LET s == a[i] * m + c
       IN MulSR(a, m, i + 1, s \div B15, Append(acc, s % B15))
MulS(a, m) == IF m = 0 THEN <<>> ELSE MulSR(a, m, 1, 0, <<>>)     \* 0 <= m <= 32768

Zeros(k) == [i \in 1..k |-> 0]
RECURSIVE MulR(_, _, _, _)
MulR(a, b, j, acc) ==
  IF j > Len(b) THEN acc
  ELSE MulR(a, b, j + 1, IF b[j] = 0 THEN acc ELSE Add(acc, Zeros(j - 1) \o MulS(a, b[j])))
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulR(a, b, 1, <<>>)

RECURSIVE DivSR(_, _, _, _, _)
DivSR(a, m, i, r, acc) ==
  IF i = 0 THEN <<Norm(acc), r>>
  ELSE LET s == r * B15 + a[i]
       IN DivSR(a, m, i - 1, s % m, <<s \div m>> \o acc)
\* quotient and remainder, 1 <= m <= 32768
DivS(a, m) == DivSR(a, m, Len(a), 0, <<>>)

Shl(a, k) == IF a = <<>> THEN <<>> ELSE Zeros(k \div 15) \o MulS(a, Pow2(k % 15))
Shr(a, k) == IF k \div 15 >= Len(a) THEN <<>>
             ELSE DivS(SubSeq(a, (k \div 15) + 1, Len(a)), Pow2(k % 15))[1]

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + BitsOf(a[Len(a)])

\* is any of the lowest k bits set
LowBits(a, k) == Cmp(a, Shl(Shr(a, k), k)) # 0

\* the value of a natural number that fits TLC's integers
RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + B15 * ToInt(SubSeq(a, 2, Len(a)))

\* little-endian bytes, exactly k of them
RECURSIVE ToBytes(_, _)
ToBytes(a, k) == IF k = 0 THEN <<>>
                 ELSE LET d == DivS(a, 256) IN <<d[2]>> \o ToBytes(d[1], k - 1)
RECURSIVE FromBytes(_)
FromBytes(s) == IF s = <<>> THEN <<>>
                ELSE Add(NatB(s[1]), MulS(FromBytes(SubSeq(s, 2, Len(s))), 256))

(* num/den as <<whole part, fraction in units of 2^-24>>, rounded down up to *)
(* a relative 2^-27; at least one unit when num is not 0, and Huge from 2^20  *)
(* on. Both are reduced to 30 bits first.                                     *)
Unit24 == 16777216
Huge == <<1048576, 0>>
RECURSIVE LongDiv(_, _, _, _)
LongDiv(r, d, k, q) ==                                    \* r < d < 2^30
  IF k = 0 THEN q
  ELSE IF 2 * r >= d THEN LongDiv(2 * r - d, d, k - 1, 2 * q + 1)
       ELSE LongDiv(2 * r, d, k - 1, 2 * q)
Top30(a) == LET l == BitLen(a) IN IF l >= 30 THEN ToInt(Shr(a, l - 30)) ELSE ToInt(Shl(a, 30 - l))
Ratio(num, den) ==                                        \* den # 0
  IF num = <<>> THEN <<0, 0>>
  ELSE LET x == BitLen(num) - BitLen(den)
           n == Top30(num)
           d == Top30(den)
           \* num/den = (n/d) * 2^x, with n/d between 1/2 and 2
           q == n \div d
       IN IF x > 20 THEN Huge
          ELSE IF x < -25 THEN <<0, 1>>
          ELSE LET bits == MinI(24 + x, 29)
                   v == IF bits < 0 THEN 0 ELSE LongDiv(n % d, d, bits, q)
                   up == bits - x                          \* v is in units of 2^-up
                   w == <<v \div Pow2(up), (v % Pow2(up)) * Pow2(24 - up)>>
               IN IF w = <<0, 0>> THEN <<0, 1>> ELSE IF w[1] >= 1048576 THEN Huge ELSE w
=============================================================================
