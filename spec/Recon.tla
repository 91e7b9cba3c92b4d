------------------------------- MODULE Recon -------------------------------
(* The series that a payload denotes. Widths, runs, constants and rounded     *)
(* values are exact. Interpolated and frequency payloads denote real numbers, *)
(* rounded to 5 decimals and limited to the smallest and largest sample that  *)
(* the payload carries; they are given here as fractions of integers, for     *)
(* payloads whose knots (or coefficients) and limits are small integers.      *)
(* A decoded series may deviate by the rounding of its arithmetic.            *)
EXTENDS Codecs

------------------------------------------------------------------------------
(* Does the double x approximate num/den (den > 0) up to tol units of 2^-24   *)
NatAbs(n) == NatB(IF n < 0 THEN 0 - n ELSE n)
RECURSIVE DivLong(_, _, _, _)
\* floor of a*2^k / d for a natural number a, d below 2^30, by long division over limbs of a*2^k
DivBig(a, d) == IF d <= 32768 THEN DivS(a, d)[1] ELSE DivLong(a, d, BitLen(a), <<<<>>, 0>>)[1]
DivLong(a, d, k, qr) ==
  IF k = 0 THEN qr
  ELSE LET bit == LET sh == Shr(a, k - 1) IN IF sh = <<>> THEN 0 ELSE sh[1] % 2
           r == 2 * qr[2] + bit
       IN DivLong(a, d, k - 1, <<Add(Shl(qr[1], 1), IF r >= d THEN <<1>> ELSE <<>>), IF r >= d THEN r - d ELSE r>>)
Approx(x, num, den, tol) ==
  /\ IsFinite(x)
  /\ LET u == UnitsOf(x)
         w == DivBig(Shl(NatAbs(num), 24), den)
         same == Neg(x) = (num < 0)
         d == IF ~same THEN Add(u, w) ELSE IF Cmp(u, w) >= 0 THEN Sub(u, w) ELSE Sub(w, u)
     IN Cmp(d, NatB(tol)) <= 0
\* limited to lo..hi (integers)
Limited(x, num, den, lo, hi, tol) ==
  IF num < lo * den THEN Approx(x, lo, 1, tol)
  ELSE IF num > hi * den THEN Approx(x, hi, 1, tol)
  ELSE Approx(x, num, den, tol)
\* half of 10^-5, and the rounding of the arithmetic
Tol5 == 90

------------------------------------------------------------------------------
(* Catmull-Rom spline through knots v at positions t (from 0), the first and  *)
(* the last two segments linear; fraction at position x                       *)
Seg(t, x) == CHOOSE k \in 1..(Len(t) - 1) : t[k] <= x /\ (x < t[k + 1] \/ (k = Len(t) - 1 /\ x = t[k + 1]))
Spline(t, v, x) ==
  IF Len(t) = 1 THEN <<v[1], 1>>
  ELSE LET j == Seg(t, x)
           l == t[j + 1] - t[j]
           k == x - t[j]
           a == v[j]
           b == v[j + 1]
       IN IF j >= 2 /\ j <= Len(t) - 2
          THEN LET d0 == t[j + 1] - t[j - 1]
                   d1 == t[j + 2] - t[j]
                   p == v[j - 1]
                   q == v[j + 2]
                   k2 == k * k
                   k3 == k * k * k
               IN <<a * (2 * k3 - 3 * k2 * l + l * l * l) * d0 * d1
                    + (b - p) * l * (k3 - 2 * k2 * l + k * l * l) * d1
                    + (q - a) * l * (k3 - k2 * l) * d0
                    + b * (3 * k2 * l - 2 * k3) * d0 * d1,
                    l * l * l * d0 * d1>>
          ELSE <<a * (l - k) + b * k, l>>

(* Inverse distance weighting with squared distances                          *)
RECURSIVE ProdExcept(_, _, _, _)
ProdExcept(t, x, skip, k) ==
  IF k > Len(t) THEN 1
  ELSE (IF k = skip THEN 1 ELSE (x - t[k]) * (x - t[k])) * ProdExcept(t, x, skip, k + 1)
Weighted(t, v, x) ==
  IF \E k \in 1..Len(t) : t[k] = x
  THEN <<v[CHOOSE k \in 1..Len(t) : t[k] = x], 1>>
  ELSE LET w == [k \in 1..Len(t) |-> ProdExcept(t, x, k, 1)]
       IN <<FoldLeft(LAMBDA acc, k : acc + v[k] * w[k], 0, [k \in 1..Len(t) |-> k]),
            FoldLeft(LAMBDA acc, k : acc + w[k], 0, [k \in 1..Len(t) |-> k])>>

SmallInt(x, m) == IntBetween(x, 0 - m, m)
\* can the interpolated payload g of n samples be given exactly here
CanInterpolate(g, n) ==
  /\ SmallInt(g.min, 1000) /\ SmallInt(g.max, 1000)
  /\ \A k \in 1..Len(g.knots) : SmallInt(g.knots[k], 100)
  /\ g.step \in 1..5
  /\ \/ g.id = IdPolynomial /\ n <= 24
     \/ n <= 10 /\ Len(KnotAt(n, g.step)) <= 4
  /\ Len(KnotAt(n, g.step)) = Len(g.knots)
InterpolatedOk(g, n, out) ==
  IF NumEq(g.min, g.max) THEN \A k \in 1..n : NumEq(out[k], g.max)
  ELSE IF Len(g.knots) = n THEN SeqNumEq(out, g.knots)
  ELSE CanInterpolate(g, n) =>
    LET t == KnotAt(n, g.step)
        v == [k \in 1..Len(t) |-> IntOf(g.knots[k])]
    IN \A k \in 1..n :
         LET f == IF g.id = IdPolynomial THEN Spline(t, v, k - 1) ELSE Weighted(t, v, k - 1)
         IN Limited(out[k], f[1], f[2], IntOf(g.min), IntOf(g.max), Tol5)

------------------------------------------------------------------------------
(* Frequencies: n samples as part of N = padded length (n below 128 samples)  *)
(* sample k is the sum over the frequencies f of the real part of             *)
(* (re + i im) e^(2 pi i f (k + prefix) / N) / N, doubled unless f is 0 or N/2*)
(* cos of multiples of 30 and 45 degrees, in units of 2^-14                   *)
Cos12 == <<16384, 14189, 8192, 0, -8192, -14189, -16384, -14189, -8192, 0, 8192, 14189>>
Cos8 == <<16384, 11585, 0, -11585, -16384, -11585, 0, 11585>>
\* f and N such that f/N is a multiple of 1/12 or 1/8
CosOk(f, nn) == (12 * f) % nn = 0 \/ (8 * f) % nn = 0
CosAt(f, nn, x) == IF (12 * f) % nn = 0 THEN Cos12[((((12 * f) \div nn) * (x % 12)) % 12) + 1]
                   ELSE Cos8[((((8 * f) \div nn) * (x % 8)) % 8) + 1]
SinAt(f, nn, x) == IF (12 * f) % nn = 0 THEN Cos12[((((12 * f) \div nn) * (x % 12) + 9) % 12) + 1]
                   ELSE Cos8[((((8 * f) \div nn) * (x % 8) + 6) % 8) + 1]
RECURSIVE Smooth(_)
Smooth(n) == IF n % 2 = 0 THEN Smooth(n \div 2) ELSE IF n % 3 = 0 THEN Smooth(n \div 3) ELSE n = 1
RECURSIVE NextSize(_)
NextSize(n) == IF Smooth(n + 1) THEN n + 1 ELSE NextSize(n + 1)
Padded(n) == IF n >= 128 THEN NextSize(n) ELSE n
CanTransform(g, n) ==
  /\ SmallInt(g.max, 1000) /\ SmallInt(g.min, 1000)
  /\ \A k \in 1..Len(g.freqs) : LET f == g.freqs[k] IN
       /\ f.pos <= Padded(n) \div 2 /\ CosOk(f.pos, Padded(n))
       /\ SmallInt(FromF32(f.re), 400) /\ SmallInt(FromF32(f.im), 400)
FftOk(g, n, out) ==
  IF NumEq(g.max, g.min) THEN \A k \in 1..n : NumEq(out[k], g.max)
  ELSE CanTransform(g, n) =>
    LET nn == Padded(n)
        prefix == (nn - n) \div 2
        term(f, x) == LET re == IntOf(FromF32(f.re))
                          im == IntOf(FromF32(f.im))
                      IN IF f.pos = 0 THEN 16384 * re
                         ELSE IF 2 * f.pos = nn THEN re * CosAt(f.pos, nn, x)
                         ELSE 2 * (re * CosAt(f.pos, nn, x) - im * SinAt(f.pos, nn, x))
    IN \A k \in 1..n :
         LET sum == FoldLeft(LAMBDA acc, f : acc + term(f, k - 1 + prefix), 0, g.freqs)
         \* in units of 2^-14, over N; the table is exact to 2^-15 per unit of coefficient
         IN Limited(out[k], sum \div 1024, 16 * nn, IntOf(g.min), IntOf(g.max), 300000)

------------------------------------------------------------------------------
\* does out denote the frame [codec, count, payload]; <<>> when the frame is not well formed
FrameOk(f, out) ==
  /\ Len(out) = f.count
  /\ CASE f.codec = "noop" -> LET d == DecNoop(f.payload) IN d # Fail => SeqNumEq(out, d[1])
       [] f.codec = "constant" -> LET d == DecConstant(f.count, f.payload) IN d # Fail => SeqNumEq(out, d[1])
       [] f.codec = "rle" -> LET d == DecRle(f.count, f.payload) IN d # Fail => SeqNumEq(out, d[1])
       [] f.codec \in {"polynomial", "idw"} ->
            LET d == GetInterpolated(f.payload) IN d # Fail => InterpolatedOk(d[1], f.count, out)
       [] f.codec = "fft" -> LET d == GetFft(f.payload) IN d # Fail => FftOk(d[1], f.count, out)
       [] OTHER -> FALSE
\* is the payload of the frame well formed (so that FrameOk says something)
WellFormed(f) ==
  CASE f.codec = "noop" -> DecNoop(f.payload) # Fail
    [] f.codec = "constant" -> DecConstant(f.count, f.payload) # Fail
    [] f.codec = "rle" -> DecRle(f.count, f.payload) # Fail
    [] f.codec \in {"polynomial", "idw"} -> GetInterpolated(f.payload) # Fail
    [] f.codec = "fft" -> GetFft(f.payload) # Fail
    [] OTHER -> FALSE
StreamOk(frames, out) ==
  LET ends == FoldLeft(LAMBDA acc, f : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + f.count), <<>>, frames)
  IN /\ Len(out) = (IF ends = <<>> THEN 0 ELSE ends[Len(ends)])
     /\ \A k \in 1..Len(frames) : FrameOk(frames[k], SubSeq(out, (IF k = 1 THEN 0 ELSE ends[k - 1]) + 1, ends[k]))
=============================================================================
