------------------------------- MODULE PlanMC -------------------------------
(* The split of a cleaned series into frames: frames are cut from the front   *)
(* until nothing is left. Lengths are the real ones.                          *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json

CONSTANTS MaxFrame, MinFrame, Lengths
VARIABLES n, left, sizes

PrevPow2(k) == CHOOSE p \in {2 ^ e : e \in 0..20} : p <= k /\ k < 2 * p
Cut(k) == IF k >= MaxFrame THEN MaxFrame ELSE IF k <= MinFrame THEN k ELSE PrevPow2(k)

Lens == (1..1100) \cup UNION {{2 ^ e - 1, 2 ^ e, 2 ^ e + 1, 2 ^ e + 511, 2 ^ e + 512, 2 ^ e + 513} : e \in 10..18}
        \cup {131072 * k + d : k \in 1..3, d \in {0, 1, 511, 512, 513, 1023, 1024, 65536, 131071}}
LensBig == (1..20000) \cup Lens \cup UNION {{2 ^ e + f + d : d \in {0, 1, 512, 513}, f \in {2 ^ g : g \in 9..16}} : e \in 10..18}
Init == n \in Lengths /\ left = n /\ sizes = <<>>
Next == /\ left > 0
        /\ sizes' = Append(sizes, Cut(left))
        /\ left' = left - Cut(left)
        /\ UNCHANGED n
        /\ left' = 0 => PrintT("@" \o ToJson([n |-> n]))

Sum == FoldLeft(LAMBDA a, x : a + x, 0, sizes)
Covers == Sum + left = n
Sizes == \A k \in 1..Len(sizes) : sizes[k] \in 1..MaxFrame
Powers == \A k \in 1..Len(sizes) :
            (k < Len(sizes) \/ left > 0) => sizes[k] >= MinFrame /\ PrevPow2(sizes[k]) = sizes[k]
LastFrame == left = 0 /\ sizes # <<>> => LET l == sizes[Len(sizes)] IN l <= MinFrame \/ PrevPow2(l) = l
Shrinks == [][left' < left]_<<n, left, sizes>>
=============================================================================
