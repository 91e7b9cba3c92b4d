----------------------------- MODULE SpectrumMC -----------------------------
(* Choosing the frequencies of a frame: the strongest of those left is taken  *)
(* until as many as asked for are kept or none is left. Also: the table of    *)
(* cosines, Parseval's theorem, and that all frequencies together denote the  *)
(* series (the denotation of Recon, which reads what is stored here).         *)
EXTENDS Spectrum, TLC

CONSTANTS Lens, Values, Budgets
Vals == {-3, 0, 1, 7}
VARIABLES s, k, kept, left
vars == <<s, k, kept, left>>

\* the table: cos^2 + sin^2 = 1, doubling, and both ends
ASSUME QuarterWave[1] = 16777216 /\ QuarterWave[3889] = 0 /\ Len(QuarterWave) = 3889
Sq(a) == Mul(NatB(AbsI(a)), NatB(AbsI(a)))
Near(a, b, t) == IF Cmp(a, b) >= 0 THEN Cmp(Sub(a, b), t) <= 0 ELSE Cmp(Sub(b, a), t) <= 0
ASSUME \A q \in 0..1944 : Near(Add(Sq(CosU(q)), Sq(SinU(q))), Shl(<<1>>, 48), Shl(<<1>>, 25))
ASSUME \A q \in 0..1944 : Near(Shl(Sq(CosU(q)), 1), Add(Shl(<<1>>, 48), Shl(NatB(CosU(2 * q)), 24)), Shl(<<1>>, 26))
ASSUME \A q \in 1..3888 : QuarterWave[q] > QuarterWave[q + 1]

T == Transform(s)
Half == Len(s) \div 2
Init == \E n \in Lens : /\ s \in [1..n -> Values]
                        /\ k \in Budgets
                        /\ kept = {} /\ left = 0..(n \div 2)
Take == /\ left # {} /\ Cardinality(kept) < k
        /\ \E f \in left : /\ \A g \in left : Cmp(Power(T[f + 1]), Power(T[g + 1])) >= 0
                           /\ kept' = kept \cup {f} /\ left' = left \ {f}
        /\ UNCHANGED <<s, k>>
Done == (left = {} \/ Cardinality(kept) >= k) /\ UNCHANGED vars
Spec == Init /\ [][Take \/ Done]_vars /\ WF_vars(Take)

Strongest == \A f \in kept : \A g \in left : AsStrong(T[f + 1], T[g + 1], 0)
Bounded == Cardinality(kept) <= k
Filled == <>[](Cardinality(kept) = (IF k < Half + 1 THEN k ELSE Half + 1))

\* twice for frequencies that have a mirror image
Twice(f) == f # 0 /\ 2 * f # Len(s)
Parseval ==
  LET sum == FoldLeft(LAMBDA a, f : Add(a, MulS(Power(T[f + 1]), IF Twice(f) THEN 2 ELSE 1)), <<>>, [j \in 1..(Half + 1) |-> j - 1])
      sq == FoldLeft(LAMBDA a, v : a + v * v, 0, s)
  IN kept = {} => Near(sum, Shl(NatB(Len(s) * sq), 24), Shl(NatB(Len(s) * Unsure(s) * AbsSum(s) + 1), 13))
\* all frequencies together give the samples back (units of 2^-12, times the length)
Back ==
  left = {} =>
    \A j \in 1..Len(s) :
      LET term(f) == LET q == ((f * (j - 1)) % Len(s)) * (Wave \div Len(s))
                         c == T[f + 1]
                     IN (c[1] * (CosU(q) \div 16384) - c[2] * (SinU(q) \div 16384)) * (IF Twice(f) THEN 2 ELSE 1)
          sum == FoldLeft(LAMBDA a, f : a + term(f), 0, [h \in 1..(Half + 1) |-> h - 1])
      IN AbsI((sum \div 1024) - Len(s) * s[j] * 4096) <= 40 * Len(s) * (1 + AbsSum(s))
=============================================================================
