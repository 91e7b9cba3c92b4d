------------------------------- MODULE Codecs -------------------------------
(* What each codec stores for a series (Enc..) and the series a payload        *)
(* denotes (Dec..: <<series>>, or Fail). Series are sequences of F64 words.    *)
EXTENDS Wire

AllFinite(s) == \A i \in 1..Len(s) : IsFinite(s[i])
SeqNumEq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NumEq(s[i], t[i])

(* The narrowest width that holds every sample exactly: bytes are unsigned.   *)
Width(s) ==
  IF \A i \in 1..Len(s) : IntBetween(s[i], 0, 255) THEN U8W
  ELSE IF \A i \in 1..Len(s) : IntBetween(s[i], -32768, 32767) THEN I16W
  ELSE IF \A i \in 1..Len(s) : IntBetween(s[i], -2147483647 - 1, 2147483647) THEN I32W
  ELSE F64W

\* first of the smallest / largest samples
MinOf(s) == FoldLeft(LAMBDA m, x : IF Less(x, m) THEN x ELSE m, s[1], s)
MaxOf(s) == FoldLeft(LAMBDA m, x : IF Less(m, x) THEN x ELSE m, s[1], s)

------------------------------------------------------------------------------
(* Constant: identifier, width, value *)
EncConstant(s) == <<IdConstant, Width(s)>> \o PutValue(Width(s), s[1])
DecConstant(n, b) ==
  IF Len(b) < 2 THEN Fail
  ELSE LET v == GetValue(b[2], b, 3) IN IF ~Ok(v) THEN Fail ELSE <<[i \in 1..n |-> v[1]]>>

------------------------------------------------------------------------------
(* Noop: identifier, samples rounded to integers *)
PutRounded(x) == PutNat(ZigZag(Neg(x), MagRound(x)))
EncNoop(s) == <<IdNoop>> \o PutVec(PutRounded, s)
Rounded(x) == FromNat(Neg(x), MagRound(x))
DecNoop(b) == LET r == GetVec(GetI, b, 2) IN IF Len(b) < 1 \/ ~Ok(r) THEN Fail ELSE <<r[1]>>

------------------------------------------------------------------------------
(* Run index: identifier, width, for each distinct value (in the order of the *)
(* bit patterns) the value and the positions where its runs start.            *)
\* positions (from 1) where runs end
RunEnds(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i = Len(s) \/ ~NumEq(s[i], s[i + 1]))
\* <<value, start from 0>> per run; the value is the last sample of the run
Runs(s) == LET e == RunEnds(s)
           IN [j \in 1..Len(e) |-> <<s[e[j]], IF j = 1 THEN 0 ELSE e[j - 1]>>]
RunIndex(s) ==
  LET r == Runs(s)
      ord == SortSeq(r, LAMBDA x, y : BitsLess(x[1], y[1]) \/ (x[1] = y[1] /\ x[2] < y[2]))
      f == FoldLeft(LAMBDA acc, x :
                      IF acc # <<>> /\ acc[Len(acc)][1] = x[1]
                      THEN [acc EXCEPT ![Len(acc)] = <<x[1], Append(@[2], x[2])>>]
                      ELSE Append(acc, <<x[1], <<x[2]>>>>),
                    <<>>, ord)
  IN f
EncRle(s) ==
  LET w == Width(s)
  IN <<IdRle, w>> \o PutVec(LAMBDA e : PutValue(w, e[1]) \o PutVec(PutU, e[2]), RunIndex(s))

\* the value at a position is that of the run with the largest start not after it; 0 before the first
GetRleEntry(w, b, p) ==
  LET v == GetValue(w, b, p) IN IF ~Ok(v) THEN Fail ELSE
  LET ix == GetVec(GetU, b, v[2]) IN IF ~Ok(ix) THEN Fail ELSE <<<<v[1], ix[1]>>, ix[2]>>
Spread(n, entries) ==
  LET starts == FoldLeft(LAMBDA acc, e : acc \o [k \in 1..Len(e[2]) |-> <<e[2][k], e[1]>>], <<>>, entries)
      ord == SortSeq(starts, LAMBDA x, y : x[1] < y[1])
      k == Len(ord)
  IN IF k = 0 THEN [i \in 1..n |-> Zero]
     ELSE LET fill(j) == LET from == MinI(n, ord[j][1])
                             to == IF j < k THEN MinI(n, ord[j + 1][1]) ELSE n
                         IN [i \in 1..(to - from) |-> ord[j][2]]
          IN FoldLeft(LAMBDA acc, j : acc \o fill(j), [i \in 1..MinI(n, ord[1][1]) |-> Zero], [j \in 1..k |-> j])
DecRle(n, b) ==
  IF Len(b) < 2 THEN Fail
  ELSE LET e == GetVec(LAMBDA c, p : GetRleEntry(b[2], c, p), b, 3)
       IN IF ~Ok(e) THEN Fail ELSE <<Spread(n, e[1])>>

------------------------------------------------------------------------------
(* Interpolating codecs: identifier, width, every step-th sample and the last *)
(* one, smallest and largest sample, step. A series of equal samples stores   *)
(* no knots.                                                                  *)
BaseKnots(n) == MaxI(3, n \div 100)
StepFor(n, knots) == MaxI(n \div knots, 1)
\* positions (from 0) of the knots
KnotAt(n, step) ==
  LET m == (n - 1) \div step
      reg == [k \in 1..(m + 1) |-> (k - 1) * step]
  IN IF m * step = n - 1 THEN reg ELSE Append(reg, n - 1)
\* what is stored with a given step
EncKnots(id, s, step) ==
  LET w == Width(s)
      lo == MinOf(s)
      hi == MaxOf(s)
      k == KnotAt(Len(s), step)
      flat == NumEq(lo, hi)
  IN <<id, w>> \o PutVec(LAMBDA x : PutValue(w, x), IF flat THEN <<>> ELSE [i \in 1..Len(k) |-> s[k[i] + 1]])
     \o PutF64(lo) \o PutF64(hi) \o <<IF flat THEN 1 ELSE step>>
EncInterpolated(id, s) == EncKnots(id, s, StepFor(Len(s), BaseKnots(Len(s))))

\* <<[id, width, knots, min, max, step]>>
GetInterpolated(b) ==
  IF Len(b) < 2 THEN Fail ELSE
  LET k == GetVec(LAMBDA c, p : GetValue(b[2], c, p), b, 3) IN IF ~Ok(k) THEN Fail ELSE
  LET lo == GetF64(b, k[2]) IN IF ~Ok(lo) THEN Fail ELSE
  LET hi == GetF64(b, lo[2]) IN IF ~Ok(hi) THEN Fail ELSE
  LET st == GetByte(b, hi[2]) IN IF ~Ok(st) THEN Fail ELSE
  <<[id |-> b[1], width |-> b[2], knots |-> k[1], min |-> lo[1], max |-> hi[1], step |-> st[1]]>>

------------------------------------------------------------------------------
(* FFT: identifier, frequencies <<position, real, imaginary>>, largest and    *)
(* smallest sample (single precision)                                         *)
GetFreq(b, p) ==
  LET q == GetU(b, p) IN IF ~Ok(q) THEN Fail ELSE
  LET re == GetF32(b, q[2]) IN IF ~Ok(re) THEN Fail ELSE
  LET im == GetF32(b, re[2]) IN IF ~Ok(im) THEN Fail ELSE
  <<[pos |-> q[1], re |-> re[1], im |-> im[1]], im[2]>>
GetFft(b) ==
  IF Len(b) < 1 THEN Fail ELSE
  LET f == GetVec(GetFreq, b, 2) IN IF ~Ok(f) THEN Fail ELSE
  LET hi == GetF32(b, f[2]) IN IF ~Ok(hi) THEN Fail ELSE
  LET lo == GetF32(b, hi[2]) IN IF ~Ok(lo) THEN Fail ELSE
  <<[freqs |-> f[1], max |-> FromF32(hi[1]), min |-> FromF32(lo[1])]>>

------------------------------------------------------------------------------
(* Payload written without an error bound *)
EncPlain(codec, s) ==
  CASE codec = "noop" -> EncNoop(s)
    [] codec = "constant" -> EncConstant(s)
    [] codec = "rle" -> EncRle(s)
    [] codec = "polynomial" -> EncInterpolated(IdPolynomial, s)
    [] codec = "idw" -> EncInterpolated(IdIdw, s)
=============================================================================
