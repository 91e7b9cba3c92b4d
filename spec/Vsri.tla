-------------------------------- MODULE Vsri --------------------------------
(* The time index. What it stands for is the history h of the timestamps it   *)
(* has accepted, in order; positions count from 0. Every answer is defined on *)
(* the history; how the index is stored (regular runs) is in VsriMC.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

None == 0 - 1000000
Panic == 0 - 2000000

Sorted(h) == \A k \in 1..(Len(h) - 1) : h[k] <= h[k + 1]
Valid(h) == Sorted(h) /\ (h = <<>> \/ h[1] >= 0)
\* only moves forward
Accepts(h, t) == t >= 0 /\ (h = <<>> \/ t >= h[Len(h)])

\* samples before y
Below(h, y) == Cardinality({k \in 1..Len(h) : h[k] < y})
TimeAt(h, x) == IF x >= 0 /\ x < Len(h) THEN h[x + 1] ELSE None
Exact(h, y) == LET b == Below(h, y) IN IF b < Len(h) /\ h[b + 1] = y THEN b ELSE None
ThisOrNext(h, y) == LET b == Below(h, y) IN IF b < Len(h) THEN b ELSE None
ThisOrPrevious(h, y) == LET b == Below(h, y) IN IF b < Len(h) /\ h[b + 1] = y THEN b
                                                ELSE IF b > 0 THEN b - 1 ELSE None

\* regular runs: a run takes every sample that keeps its step, which its first two samples set
Runs(h) ==
  FoldLeft(LAMBDA rs, y :
    IF rs = <<>> THEN <<[m |-> 0, x |-> 0, from |-> y, n |-> 1, to |-> y]>>
    ELSE LET r == rs[Len(rs)]
         IN IF r.n = 1 THEN [rs EXCEPT ![Len(rs)] = [r EXCEPT !.m = y - r.from, !.n = 2, !.to = y]]
            ELSE IF y - r.to = r.m THEN [rs EXCEPT ![Len(rs)] = [r EXCEPT !.n = r.n + 1, !.to = y]]
            ELSE Append(rs, [m |-> 0, x |-> r.x + r.n, from |-> y, n |-> 1, to |-> y]), <<>>, h)
Inhabited(h, a, b) == \E k \in 1..Len(h) : a <= h[k] /\ h[k] <= b
MustBeEmpty(h, rs, a, b) == /\ h # <<>>
                            /\ \/ b < h[1]
                               \/ a > h[Len(h)]
                               \/ \E k \in 1..(Len(rs) - 1) : a > rs[k].to /\ b < rs[k + 1].from
=============================================================================
