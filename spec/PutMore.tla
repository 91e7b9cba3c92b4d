------------------------------ MODULE PutMore ------------------------------
(* Encoders of payloads that a writer may choose freely (Enc.. of Codecs give *)
(* what this compressor writes).                                              *)
EXTENDS Codecs
\* single precision word pair of an integer below 2^24
F32OfInt(n) ==
  IF n = 0 THEN <<0, 0>>
  ELSE LET a == IF n < 0 THEN 0 - n ELSE n
           l == BitsOf(a)
           m == (a - Pow2(l - 1)) * Pow2(24 - l)            \* 23 bits below the leading one
           e == 126 + l
       IN <<m % 65536, (m \div 65536) + 128 * (e % 256) + (IF n < 0 THEN 32768 ELSE 0)>>
PutF32(n) == LET w == F32OfInt(n) IN U16(w[1]) \o U16(w[2])
PutFreq(f) == PutU(f[1]) \o PutF32(f[2]) \o PutF32(f[3])
PutFft(freqs, hi, lo) == <<IdFft>> \o PutVec(PutFreq, freqs) \o PutF32(hi) \o PutF32(lo)
\* integers in any width that holds them
PutKnots(id, w, knots, lo, hi, step) ==
  <<id, w>> \o PutVec(LAMBDA x : PutValue(w, FromInt(x)), knots) \o PutF64(FromInt(lo)) \o PutF64(FromInt(hi)) \o <<step>>
PutRuns(w, entries) == <<IdRle, w>> \o PutVec(LAMBDA e : PutValue(w, e[1]) \o PutVec(PutU, e[2]), entries)
PutConstant(w, x) == <<IdConstant, w>> \o PutValue(w, x)
=============================================================================
