----------------------------- MODULE MeasuresMC -----------------------------
(* All pairs of short series over a few values, and what holds of the         *)
(* measures between them.                                                     *)
EXTENDS Measures, TLC, Json

CONSTANTS MaxLen, Values
VARIABLES o, g

Word(v) == FromInt(v - 4)
Init == o = <<>> /\ g = <<>>
Next == /\ Len(o) < MaxLen
        /\ \E a, b \in Values : o' = Append(o, Word(a)) /\ g' = Append(g, Word(b))
        /\ PrintT("@" \o ToJson([o |-> o', g |-> g']))
\* nothing between a series and itself alone; the same both ways
Same == \A k \in 1..Len(o) : NumEq(o[k], g[k])
Identity == /\ SumAbs(o, g)[1] = <<>> <=> Same
            /\ SumSquares(o, g)[1] = <<>> <=> Same
            /\ SumErr(o, g) = <<0, 0>> <=> Same
            /\ SymErr(o, g) = <<0, 0>> <=> Same
Symmetric == SymErr(o, g) = SymErr(g, o) /\ Close(SumAbs(o, g), SumAbs(g, o)) /\ Close(SumSquares(o, g), SumSquares(g, o))
\* the square of the mean is at most the mean of the squares
Order == DLeq(Square(SumAbs(o, g)), DTimes(SumSquares(o, g), Len(o)))
\* the symmetric error is at most 1 per sample, all of it where the signs differ or one is 0
Bounded == LET s == SymErr(o, g)
               far(k) == ~NumEq(o[k], g[k]) /\ (IsZero(o[k]) \/ IsZero(g[k]) \/ Neg(o[k]) # Neg(g[k]))
           IN /\ s[1] < Len(o) \/ s = <<Len(o), 0>>
              /\ (\A k \in 1..Len(o) : far(k)) => s = <<Len(o), 0>>
=============================================================================
