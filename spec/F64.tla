-------------------------------- MODULE F64 --------------------------------
(* IEEE-754 double precision numbers, as <<w0, w1, w2, w3>>: the four 16-bit  *)
(* words of the bit pattern, least significant first. Single precision: two   *)
(* words.                                                                     *)
EXTENDS BigNat, SequencesExt

Neg(x) == x[4] >= 32768
Exp(x) == (x[4] \div 16) % 2048
IsFinite(x) == Exp(x) # 2047
IsNaN(x) == Exp(x) = 2047 /\ (x[4] % 16 # 0 \/ x[3] # 0 \/ x[2] # 0 \/ x[1] # 0)
IsZero(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] % 32768 = 0
Zero == <<0, 0, 0, 0>>
PosInf == <<0, 0, 0, 32752>>

\* |x| = Mant(x) * 2^Pow(x)
Limbs4(a, b, c, d) == Norm(<<a % 32768,
                            (a \div 32768) + (b % 16384) * 2,
                            (b \div 16384) + (c % 8192) * 4,
                            (c \div 8192) + d * 8>>)
Mant(x) == Limbs4(x[1], x[2], x[3], (x[4] % 16) + (IF Exp(x) = 0 THEN 0 ELSE 16))
Pow(x) == (IF Exp(x) = 0 THEN 1 ELSE Exp(x)) - 1075

NumEq(x, y) == x = y \/ (IsZero(x) /\ IsZero(y))

\* order of the magnitudes: that of the words
MagLess(x, y) ==
  LET a == x[4] % 32768
      b == y[4] % 32768
  IN a < b \/ (a = b /\ (x[3] < y[3] \/ (x[3] = y[3] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1])))))
Less(x, y) == \/ Neg(x) /\ ~Neg(y) /\ ~(IsZero(x) /\ IsZero(y))
              \/ ~Neg(x) /\ ~Neg(y) /\ MagLess(x, y)
              \/ Neg(x) /\ Neg(y) /\ MagLess(y, x)
Leq(x, y) == ~Less(y, x)
\* order of the bit patterns as unsigned numbers
BitsLess(x, y) ==
  x[4] < y[4] \/ (x[4] = y[4] /\ (x[3] < y[3] \/ (x[3] = y[3] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1])))))

\* does the finite number x have no fractional part
IsInt(x) == IsZero(x) \/ Pow(x) >= 0
            \/ (Exp(x) >= 1023 /\ ~LowBits(Mant(x), 0 - Pow(x)))
\* |x| for integral x
MagInt(x) == IF Pow(x) >= 0 THEN Shl(Mant(x), Pow(x)) ELSE Shr(Mant(x), 0 - Pow(x))
\* |x| rounded to the nearest integer, halves upwards
MagRound(x) == IF Pow(x) >= 0 THEN Shl(Mant(x), Pow(x))
               ELSE IF 0 - Pow(x) > 55 THEN <<>>
               ELSE Shr(Add(Mant(x), Shl(<<1>>, 0 - Pow(x) - 1)), 0 - Pow(x))
\* integral x between lo and hi, which have at most 31 bits
IntBetween(x, lo, hi) ==
  /\ IsInt(x)
  /\ Exp(x) < 1023 + 31 \/ (Neg(x) /\ lo = -2147483647 - 1 /\ x = <<0, 0, 0, 49632>>)
  /\ \/ x = <<0, 0, 0, 49632>>
     \/ LET v == ToInt(MagInt(x)) IN IF Neg(x) THEN 0 - v >= lo ELSE v <= hi
IntOf(x) == IF x = <<0, 0, 0, 49632>> THEN -2147483647 - 1
            ELSE IF Neg(x) THEN 0 - ToInt(MagInt(x)) ELSE ToInt(MagInt(x))

\* nearest double of the natural number a (ties to even), with a sign
WordsOf(neg, ex, m) ==      \* m: 53 bit natural number (hidden bit included) or less for subnormals
  LET b == ToBytes(m, 8)
      top == IF BitLen(m) = 53 THEN b[7] % 16 ELSE b[7]
  IN <<b[1] + 256 * b[2], b[3] + 256 * b[4], b[5] + 256 * b[6],
       top + 16 * ex + (IF neg THEN 32768 ELSE 0)>>
RneShr(a, k) ==             \* a / 2^k rounded to nearest, ties to even
  IF k = 0 THEN a
  ELSE LET q == Shr(a, k)
           half == LowBits(Sub(a, Shl(q, k)), k) /\ Cmp(Sub(a, Shl(q, k)), Shl(<<1>>, k - 1)) >= 0
           tie == Cmp(Sub(a, Shl(q, k)), Shl(<<1>>, k - 1)) = 0
           odd == q # <<>> /\ q[1] % 2 = 1
       IN IF half /\ (~tie \/ odd) THEN Add(q, <<1>>) ELSE q
FromNat(neg, a) ==
  LET l == BitLen(a)
  IN IF l = 0 THEN (IF neg THEN <<0, 0, 0, 32768>> ELSE Zero)
     ELSE IF l <= 53 THEN WordsOf(neg, l + 1022, Shl(a, 53 - l))
     ELSE LET m == RneShr(a, l - 53)
          IN IF BitLen(m) = 54 THEN WordsOf(neg, l + 1023, Shr(m, 1)) ELSE WordsOf(neg, l + 1022, m)
FromInt(n) == IF n = -2147483647 - 1 THEN <<0, 0, 0, 49632>>
              ELSE IF n < 0 THEN FromNat(TRUE, NatB(0 - n)) ELSE FromNat(FALSE, NatB(n))

\* nearest single precision number of x, back as a double (ties to even, overflow to infinity)
ToF32(x) ==
  IF ~IsFinite(x) THEN x
  ELSE IF IsZero(x) THEN (IF Neg(x) THEN <<0, 0, 0, 32768>> ELSE Zero)
  ELSE LET m == Mant(x)
           l == BitLen(m)
           e == l - 1 + Pow(x)                       \* exponent of the leading bit
           drop == IF e >= -126 THEN l - 24 ELSE (-149) - Pow(x)
           r == IF drop <= 0 THEN m ELSE IF drop > 60 THEN <<>> ELSE RneShr(m, drop)
           p == IF drop <= 0 THEN Pow(x) ELSE Pow(x) + drop
           rl == BitLen(r)
           re == rl - 1 + p
       IN IF r = <<>> THEN (IF Neg(x) THEN <<0, 0, 0, 32768>> ELSE Zero)
          ELSE IF re > 127 THEN (IF Neg(x) THEN <<0, 0, 0, 65520>> ELSE PosInf)
          ELSE WordsOf(Neg(x), re + 1023, IF rl <= 53 THEN Shl(r, 53 - rl) ELSE Shr(r, rl - 53))

FromF32(w) ==               \* <<w0, w1>> to double
  LET neg == w[2] >= 32768
      ex == (w[2] \div 128) % 256
      m == Norm(<<w[1] % 32768, (w[1] \div 32768) + ((w[2] % 128) + (IF ex = 0 THEN 0 ELSE 128)) * 2>>)
      p == (IF ex = 0 THEN 1 ELSE ex) - 150
      l == BitLen(m)
  IN IF ex = 255 THEN (IF m = Norm(<<0, 256>>) THEN (IF neg THEN <<0, 0, 0, 65520>> ELSE PosInf) ELSE <<0, 0, 0, 32760>>)
     ELSE IF m = <<>> THEN (IF neg THEN <<0, 0, 0, 32768>> ELSE Zero)
     ELSE WordsOf(neg, l - 1 + p + 1023, Shl(m, 53 - l))

\* |x - y| as <<natural number, power of two>>
AbsDiff(x, y) ==
  LET p == MinI(Pow(x), Pow(y))
      a == Shl(Mant(x), Pow(x) - p)
      b == Shl(Mant(y), Pow(y) - p)
  IN <<IF Neg(x) # Neg(y) THEN Add(a, b) ELSE IF Cmp(a, b) >= 0 THEN Sub(a, b) ELSE Sub(b, a), p>>

(* The relative error |g - o| / |o| as <<whole part, units of 2^-24>>; a      *)
(* sample reproduced exactly has none, and any other value for 0 has no       *)
(* finite error.                                                              *)
Infinite == <<-1, 0>>
RelErr(o, g) ==
  IF NumEq(o, g) THEN <<0, 0>>
  ELSE IF ~IsFinite(g) \/ IsZero(o) THEN Infinite
  ELSE IF IsZero(g) THEN <<1, 0>>
  ELSE LET ho == BitLen(Mant(o)) + Pow(o)
           hg == BitLen(Mant(g)) + Pow(g)
       IN IF hg > ho + 22 THEN Huge
          ELSE IF ho > hg + 40 THEN <<1, 0>>
          ELSE LET d == AbsDiff(o, g)
               IN Ratio(Shl(d[1], MaxI(0, d[2] - Pow(o))), Shl(Mant(o), MaxI(0, Pow(o) - d[2])))
\* the sum of the relative errors; Infinite when one of them is
SumErr(o, g) ==
  FoldLeft(LAMBDA acc, i :
             IF acc = Infinite THEN acc
             ELSE LET r == RelErr(o[i], g[i])
                  IN IF r = Infinite THEN Infinite
                     ELSE <<MinI(acc[1] + r[1] + (acc[2] + r[2]) \div Unit24, 1073741824), (acc[2] + r[2]) % Unit24>>,
           <<0, 0>>, [i \in 1..Len(o) |-> i])
\* a sum as a natural number of units of 2^-24
SumUnits(s) == Add(Shl(NatB(s[1]), 24), NatB(s[2]))

\* |x| in units of 2^-24, rounded down
UnitsOf(x) ==
  IF IsZero(x) THEN <<>>
  ELSE LET s == Pow(x) + 24 IN IF s >= 0 THEN Shl(Mant(x), s) ELSE IF 0 - s > 60 THEN <<>> ELSE Shr(Mant(x), 0 - s)
=============================================================================
