----------------------------- MODULE VsriFileMC -----------------------------
(* Files that other writers may write: the samples are divided into runs in   *)
(* every possible way. All of them stand for their samples, every query on    *)
(* the runs has the answer of the samples, and every file is emitted, to be   *)
(* loaded by the code.                                                        *)
EXTENDS VsriMC, VsriFile

\* a run may end where it likes
Break(t) == /\ h # <<>> /\ t >= mx
            /\ h' = Append(h, t) /\ mx' = t /\ mn' = mn
            /\ segs' = Append(segs, <<0, Cur[2] + Cur[4], t, 1>>)
            /\ UNCHANGED disk
NextFile == /\ Len(h) < MaxOps
            /\ \E t \in Times : Take(t) \/ Break(t)
            /\ ops' = <<>>
            /\ Len(h') >= EmitFrom => PrintT("@" \o ToJson([h |-> h', text |-> FileOf(mn', mx', segs')]))
Stands == Denotes(ReadFile(FileOf(mn, mx, segs)), h)
\* and no other history
Only == h # <<>> => ~Denotes(ReadFile(FileOf(mn, mx, segs)), Append(h, mx)) /\ ~Denotes(ReadFile(FileOf(mn, mx, segs)), SubSeq(h, 1, Len(h) - 1))
TruthfulOnly == \A a \in Ys : \A b \in a..(CHOOSE m \in Ys : \A u \in Ys : u <= m) : SegEmpty(a, b) => ~Inhabited(h, a, b)
=============================================================================
