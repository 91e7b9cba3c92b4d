-------------------------------- MODULE StatsMC --------------------------------
(* One pass over a series: extremes, positions and a type, updated with each  *)
(* sample, are those of the definition after every sample. Every series is    *)
(* emitted, to be given to the code.                                          *)
EXTENDS Stats, TLC, Json

CONSTANTS MaxLen, Values
VARIABLES s, mn, mx, mnAt, mxAt, frac

\* the values: on both sides of the limits of the types, and fractions
Edge == <<FromInt(0), FromInt(1), FromInt(255), FromInt(256), FromInt(-1), FromInt(32767), FromInt(32768), FromInt(-32768), FromInt(-32769),
          FromInt(2147483647), <<0, 0, 0, 16864>>, FromInt(-2147483647 - 1), <<0, 32, 0, 49632>>,
          <<0, 0, 0, 16352>>, <<0, 0, 0, 32768>>, <<0, 0, 0, 49120>>>>
Init == s = <<>> /\ mn = Zero /\ mx = Zero /\ mnAt = -1 /\ mxAt = -1 /\ frac = FALSE
Next == /\ Len(s) < MaxLen
        /\ \E v \in Values :
             LET x == Edge[v] IN
             /\ s' = Append(s, x)
             /\ IF s = <<>> \/ Less(x, mn) THEN mn' = x /\ mnAt' = Len(s) ELSE UNCHANGED <<mn, mnAt>>
             /\ IF s = <<>> \/ Less(mx, x) THEN mx' = x /\ mxAt' = Len(s) ELSE UNCHANGED <<mx, mxAt>>
             /\ frac' = (frac \/ ~IsInt(x))
        /\ PrintT("@" \o ToJson([s |-> s']))

\* the type, of the extremes alone
OfExtremes ==
  IF frac THEN "F64"
  ELSE IF IntBetween(mx, -2147483647 - 1, 255) /\ IntBetween(mn, 0, 2147483647) THEN "U8"
  ELSE IF IntBetween(mx, -2147483647 - 1, 32767) /\ IntBetween(mn, -32768, 2147483647) THEN "I16"
  ELSE IF IntBetween(mx, -2147483647 - 1, 2147483647) /\ IntBetween(mn, -2147483647 - 1, 2147483647) THEN "I32"
  ELSE "F64"
Extremes == s # <<>> => Least(mn, s) /\ Greatest(mx, s)
Places == s # <<>> => Stands(mn, mnAt, s) /\ Stands(mx, mxAt, s)
Type == s # <<>> => frac = Fractional(s) /\ OfExtremes = Narrowest(s)
\* one value is its own mean; with values of either sign, or with zero and others, no extreme is the mean
Between == s # <<>> =>
  LET side(k) == IF IsZero(s[k]) THEN 0 ELSE IF Neg(s[k]) THEN -1 ELSE 1
  IN /\ (\A k \in 1..Len(s) : NumEq(s[k], mn)) => IsMean(mn, s) /\ IsMean(mx, s)
     /\ (\E j, k \in 1..Len(s) : side(j) # side(k)) => ~IsMean(mn, s) /\ ~IsMean(mx, s)
=============================================================================
