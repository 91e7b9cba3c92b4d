------------------------------ MODULE F64Test ------------------------------
(* Self test of the arithmetic of the specification against cases computed    *)
(* elsewhere with exact fractions (tools/selftest.py).                        *)
EXTENDS F64, TLC, Json, IOUtils
VARIABLES i, done
Cases == JsonDeserialize(IOEnv.TRACE)
Bad(c) ==
  {k \in {"isint", "f32", "f32w", "less", "round", "rel", "nb", "nf", "units", "diff"} :
     ~ CASE k = "isint" -> IsInt(c.x) = c.isint
         [] k = "f32" -> ToF32(c.x) = c.f32
         [] k = "f32w" -> FromF32(c.f32w) = c.f32
         [] k = "less" -> Less(c.x, c.y) = c.less
         [] k = "round" -> c.big \/ FromNat(Neg(c.x), MagRound(c.x)) = c.round
         [] k = "rel" -> LET r == RelErr(c.x, c.y)
                         IN \/ r = c.rel
                            \/ /\ r[1] - c.rel[1] \in -1..1
                               /\ LET df == (r[1] - c.rel[1]) * Unit24 + r[2] - c.rel[2]
                                  IN df >= 0 - (r[1] + 2) /\ df <= r[1] + 2
         [] k = "nb" -> ToBytes(FromBytes(c.nb), 8) = c.nb
         [] k = "nf" -> FromNat(FALSE, FromBytes(c.nb)) = c.nf
         [] k = "units" -> ToBytes(UnitsOf(c.x), 140) = c.units
         [] k = "diff" -> LET d == AbsDiff(c.x, c.y) IN (d[1] = <<>>) = NumEq(c.x, c.y)}
Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ (Bad(Cases[i]) # {} => PrintT("@" \o ToJson([reject |-> i, why |-> Bad(Cases[i])])))
=============================================================================
