-------------------------------- MODULE Wire --------------------------------
(* The byte layout of format version 1. A compressed stream is                *)
(*    "BRRO"  version (u32, little endian)  number of frames (u8, at most 255)*)
(*    number of frames (varint), then per frame                               *)
(*       frame size field (varint)  sample count (varint)  codec (varint)     *)
(*       payload length (varint)  payload                                     *)
(* Variable-length integers take one byte up to 250, else a marker (251, 252, *)
(* 253) and 2, 4 or 8 bytes, little endian. Signed ones are zigzag encoded.   *)
(* Values are encoded (Put..) and parsed (Get..) here; a parser takes the bytes *)
(* and a position and gives <<value, next position>>, or Fail; GetStream gives *)
(* <<stream>> or Fail.                                                        *)
EXTENDS F64, TLC, SequencesExt

Fail == <<>>
Ok(r) == r # Fail

CodecNo == [noop |-> 0, fft |-> 1, idw |-> 2, constant |-> 3, polynomial |-> 4, auto |-> 5, rle |-> 6]
CodecOf(k) == CASE k = 0 -> "noop" [] k = 1 -> "fft" [] k = 2 -> "idw" [] k = 3 -> "constant"
                [] k = 4 -> "polynomial" [] k = 5 -> "auto" [] k = 6 -> "rle" [] OTHER -> "none"

CurrentVersion == 1
FrameSizeField == 41
IdNoop == 250
IdConstant == 30
IdRle == 60
IdFft == 15
IdPolynomial == 0
IdIdw == 1
\* storage widths
F64W == 0
I32W == 1
I16W == 2
U8W  == 3

------------------------------------------------------------------------------
(* Encoding *)
U16(n) == <<n % 256, n \div 256>>
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
PutF64(x) == U16(x[1]) \o U16(x[2]) \o U16(x[3]) \o U16(x[4])
\* unsigned integer below 2^31
PutU(n) == IF n <= 250 THEN <<n>> ELSE IF n <= 65535 THEN <<251>> \o U16(n) ELSE <<252>> \o U32(n)
\* any natural number below 2^64
PutNat(a) == IF BitLen(a) <= 31 THEN PutU(ToInt(a))
             ELSE IF BitLen(a) <= 32 THEN <<252>> \o ToBytes(a, 4)
             ELSE <<253>> \o ToBytes(a, 8)
\* signed integers as sign and magnitude
ZigZag(neg, a) == IF neg /\ a # <<>> THEN Sub(Shl(a, 1), <<1>>) ELSE Shl(a, 1)
PutI(n) == IF n >= 0 /\ n < 1073741824 THEN PutU(2 * n)
           ELSE IF n < 0 /\ n > -1073741824 THEN PutU(-2 * n - 1)
           ELSE IF n = -2147483647 - 1 THEN <<252, 255, 255, 255, 255>>
           ELSE PutNat(ZigZag(n < 0, NatB(IF n < 0 THEN 0 - n ELSE n)))

\* a value in a storage width: unsigned bytes are raw, the rest are varints, doubles are raw
PutValue(width, x) == CASE width = U8W -> <<IntOf(x)>>
                        [] width = I16W \/ width = I32W -> PutI(IntOf(x))
                        [] width = F64W -> PutF64(x)

Cat(f, s) == FoldLeft(LAMBDA acc, e : acc \o f[e], <<>>, s)
\* concatenation of Op(s[1]), Op(s[2]), ...
CatMap(Op(_), s) == FoldLeft(LAMBDA acc, e : acc \o Op(e), <<>>, s)
PutVec(Op(_), s) == PutU(Len(s)) \o CatMap(Op, s)

\* a reader takes any size for the frame, it tells nothing
PutSized(size, codecNo, count, payload) ==
  PutU(size) \o PutU(count) \o PutU(codecNo) \o PutU(Len(payload)) \o payload
PutFrame(codecNo, count, payload) == PutSized(FrameSizeField, codecNo, count, payload)
Magic == <<66, 82, 82, 79>>
PutHeader(version, frames) == Magic \o U32(version) \o <<MinI(frames, 255)>>
\* frames: sequence of [codec, count, payload]
PutStream(version, frames) ==
  PutHeader(version, Len(frames)) \o PutVec(LAMBDA f : PutFrame(CodecNo[f.codec], f.count, f.payload), frames)

------------------------------------------------------------------------------
(* Parsing *)
GetByte(b, p) == IF p <= Len(b) THEN <<b[p], p + 1>> ELSE Fail
GetRaw(b, p, k) == IF p + k - 1 <= Len(b) THEN <<SubSeq(b, p, p + k - 1), p + k>> ELSE Fail
\* natural number of a varint
GetNat(b, p) ==
  IF p > Len(b) THEN Fail
  ELSE LET k == CASE b[p] <= 250 -> 0 [] b[p] = 251 -> 2 [] b[p] = 252 -> 4 [] b[p] = 253 -> 8 [] OTHER -> -1
       IN IF k = -1 \/ p + k > Len(b) THEN Fail
          ELSE IF k = 0 THEN <<NatB(b[p]), p + 1>>
          ELSE <<FromBytes(SubSeq(b, p + 1, p + k)), p + 1 + k>>
\* varint as an integer; larger ones cannot occur in a stream that is this short
GetU(b, p) == LET r == GetNat(b, p)
              IN IF ~Ok(r) THEN Fail ELSE IF BitLen(r[1]) > 31 THEN Fail ELSE <<ToInt(r[1]), r[2]>>
\* signed: the double it converts to
GetI(b, p) ==
  LET r == GetNat(b, p)
  IN IF ~Ok(r) THEN Fail
     ELSE LET odd == r[1] # <<>> /\ r[1][1] % 2 = 1
          IN <<IF odd THEN FromNat(TRUE, Add(Shr(r[1], 1), <<1>>)) ELSE FromNat(FALSE, Shr(r[1], 1)), r[2]>>
GetF64(b, p) ==
  IF p + 7 > Len(b) THEN Fail
  ELSE <<<<b[p] + 256 * b[p + 1], b[p + 2] + 256 * b[p + 3], b[p + 4] + 256 * b[p + 5], b[p + 6] + 256 * b[p + 7]>>, p + 8>>
GetF32(b, p) ==
  IF p + 3 > Len(b) THEN Fail ELSE <<<<b[p] + 256 * b[p + 1], b[p + 2] + 256 * b[p + 3]>>, p + 4>>
GetValue(width, b, p) ==
  CASE width = U8W -> (IF p > Len(b) THEN Fail ELSE <<FromInt(b[p]), p + 1>>)
    [] width = I16W \/ width = I32W -> GetI(b, p)
    [] width = F64W -> GetF64(b, p)
    [] OTHER -> Fail

RECURSIVE GetMany(_, _, _, _, _)
GetMany(Op(_, _), b, p, k, acc) ==
  IF k = 0 THEN <<acc, p>>
  ELSE LET r == Op(b, p) IN IF ~Ok(r) THEN Fail ELSE GetMany(Op, b, r[2], k - 1, Append(acc, r[1]))
GetVec(Op(_, _), b, p) ==
  LET n == GetU(b, p) IN IF ~Ok(n) THEN Fail ELSE GetMany(Op, b, n[2], n[1], <<>>)

GetFrame(b, p) ==
  LET a == GetU(b, p) IN IF ~Ok(a) THEN Fail ELSE
  LET c == GetU(b, a[2]) IN IF ~Ok(c) THEN Fail ELSE
  LET k == GetU(b, c[2]) IN IF ~Ok(k) THEN Fail ELSE
  IF CodecOf(k[1]) = "none" THEN Fail ELSE
  LET n == GetU(b, k[2]) IN IF ~Ok(n) THEN Fail ELSE
  LET d == GetRaw(b, n[2], n[1]) IN IF ~Ok(d) THEN Fail ELSE
  <<[size |-> a[1], codec |-> CodecOf(k[1]), count |-> c[1], payload |-> d[1]], d[2]>>

\* <<[version, count, frames]>>, or Fail: the stream must be refused
GetStream(b) ==
  IF Len(b) < 9 THEN Fail
  ELSE IF SubSeq(b, 1, 4) # Magic THEN Fail
  ELSE IF b[8] >= 128 THEN Fail                                   \* a newer version, too large for an integer here
  ELSE LET v == b[5] + 256 * b[6] + 65536 * b[7] + 16777216 * b[8]
       IN IF v > CurrentVersion THEN Fail
          ELSE LET f == GetVec(GetFrame, b, 10)
               IN IF ~Ok(f) THEN Fail ELSE <<[version |-> v, count |-> b[9], frames |-> f[1]]>>
=============================================================================
