------------------------------ MODULE CodecsMC ------------------------------
(* Series built one sample at a time over an alphabet of samples at which     *)
(* the encodings change their form. In every state, the encodings satisfy     *)
(* what the properties promise of them; every series is emitted, to be run    *)
(* through the code (which must produce these very bytes and series).         *)
EXTENDS Codecs, Json

CONSTANTS MaxLen, Alphabet, EmitFrom
VARIABLES s

\* bit patterns, most significant word last
Values ==
  << <<0, 0, 0, 0>>,                 \*  1: 0
     <<0, 0, 0, 32768>>,             \*  2: -0
     <<0, 0, 0, 16368>>,             \*  3: 1
     <<0, 0, 0, 49136>>,             \*  4: -1
     <<0, 0, 0, 16352>>,             \*  5: 0.5
     <<0, 0, 0, 49144>>,             \*  6: -1.5
     <<0, 0, 24576, 16495>>,         \*  7: 251
     <<0, 0, 57344, 16495>>,         \*  8: 255
     <<0, 0, 0, 16496>>,             \*  9: 256
     <<0, 0, 16384, 16495>>,         \* 10: 250
     <<0, 0, 65472, 16607>>,         \* 11: 32767
     <<0, 0, 0, 49376>>,             \* 12: -32768
     <<0, 0, 0, 16608>>,             \* 13: 32768
     <<0, 0, 32, 49376>>,            \* 14: -32769
     <<0, 65472, 65535, 16863>>,     \* 15: 2147483647
     <<0, 0, 0, 49632>>,             \* 16: -2147483648
     <<0, 0, 0, 16864>>,             \* 17: 2147483648
     <<0, 32, 0, 49632>>,            \* 18: -2147483649
     <<1, 0, 0, 16368>>,             \* 19: 1 + 2^-52
     <<0, 0, 0, 17216>>,             \* 20: 2^53
     <<1, 0, 0, 0>>,                 \* 21: smallest positive
     <<65535, 65535, 65535, 32751>>, \* 22: largest
     <<39322, 39321, 39321, 16313>>, \* 23: 0.1
     <<0, 0, 0, 16504>>              \* 24: 384
  >>
Ser == [k \in 1..Len(s) |-> Values[s[k]]]

Init == s = <<>>
Next == /\ Len(s) < MaxLen
        /\ \E v \in Alphabet : s' = Append(s, v)
        /\ (Len(s') >= EmitFrom => PrintT("@" \o ToJson([s |-> s'])))

NonEmpty(P) == s # <<>> => P
Samples == \A v \in Alphabet : IsFinite(Values[v])
RleExact == NonEmpty(LET d == DecRle(Len(s), EncRle(Ser)) IN d # Fail /\ SeqNumEq(d[1], Ser))
NoopRounds == NonEmpty((\A k \in 1..Len(s) : BitLen(MagRound(Ser[k])) <= 62) =>
                       LET d == DecNoop(EncNoop(Ser)) IN d # Fail /\ SeqNumEq(d[1], [k \in 1..Len(s) |-> Rounded(Ser[k])]))
ConstantExact == NonEmpty((\A k \in 1..Len(s) : NumEq(Ser[1], Ser[k])) =>
                          LET d == DecConstant(Len(s), EncConstant(Ser)) IN d # Fail /\ SeqNumEq(d[1], Ser))
WidthHolds == NonEmpty(\A k \in 1..Len(s) : LET v == GetValue(Width(Ser), PutValue(Width(Ser), Ser[k]), 1)
                                            IN v # Fail /\ NumEq(v[1], Ser[k]))
Knots == NonEmpty(LET g == GetInterpolated(EncInterpolated(IdPolynomial, Ser))
                      k == KnotAt(Len(s), StepFor(Len(s), BaseKnots(Len(s))))
                  IN /\ g # Fail
                     /\ \A x \in 1..Len(s) : Leq(g[1].min, Ser[x]) /\ Leq(Ser[x], g[1].max)
                     /\ \/ g[1].knots = <<>> /\ NumEq(g[1].min, g[1].max)
                        \/ /\ Len(g[1].knots) = Len(k)
                           /\ NumEq(g[1].knots[1], Ser[1]) /\ NumEq(g[1].knots[Len(k)], Ser[Len(s)])
                           /\ KnotAt(Len(s), g[1].step) = k)
\* every sample is a knot when the step is 1
AllKnots == NonEmpty(LET g == GetInterpolated(EncKnots(IdPolynomial, Ser, 1))
                     IN NumEq(g[1].min, g[1].max) \/ SeqNumEq(g[1].knots, Ser))
Framing == NonEmpty(\A c \in {"noop", "rle", "idw"} :
             LET f == [codec |-> c, count |-> Len(s), payload |-> EncPlain(c, Ser)]
                 b == PutStream(CurrentVersion, <<f>>)
                 g == GetStream(b)
             IN /\ g # Fail
                /\ g[1].frames = <<[size |-> FrameSizeField, codec |-> c, count |-> Len(s), payload |-> f.payload]>>
                /\ Len(s) <= 2 => \A k \in 0..(Len(b) - 1) : GetStream(SubSeq(b, 1, k)) = Fail)
=============================================================================
