------------------------------- MODULE VsriMC -------------------------------
(* The index as it is stored: runs [step, first position, first timestamp,    *)
(* samples], a minimum, a maximum, and what is saved on disk. It refines the  *)
(* history: every query on the runs has the answer of the history, in every   *)
(* reachable state, saves and reloads included. Every sequence of operations  *)
(* is emitted, to be replayed into the code.                                  *)
EXTENDS Vsri, TLC, Json

CONSTANTS Times, MaxOps, Refusals, Disk, EmitFrom
VARIABLES h, segs, mn, mx, disk, ops

vars == <<h, segs, mn, mx, disk, ops>>
Init == h = <<>> /\ segs = <<>> /\ mn = 0 /\ mx = 0 /\ disk = <<>> /\ ops = <<>>
Cur == segs[Len(segs)]
Emit == Len(ops') >= EmitFrom => PrintT("@" \o ToJson([ops |-> ops']))

Take(t) ==
  /\ t >= mx
  /\ h' = Append(h, t)
  /\ mx' = t
  /\ mn' = IF segs = <<>> THEN t ELSE mn
  /\ segs' = IF segs = <<>> THEN <<<<0, 0, t, 1>>>>
             ELSE IF Cur[4] = 1 THEN [segs EXCEPT ![Len(segs)] = <<t - Cur[3], Cur[2], Cur[3], 2>>]
             ELSE IF t = Cur[3] + Cur[1] * Cur[4] THEN [segs EXCEPT ![Len(segs)][4] = @ + 1]
             ELSE Append(segs, <<0, Cur[2] + Cur[4], t, 1>>)
  /\ UNCHANGED disk
Refuse(t) == Refusals /\ t < mx /\ UNCHANGED <<h, segs, mn, mx, disk>>
Op(o) == ops' = Append(ops, o) /\ Emit
Next ==
  /\ Len(ops) < MaxOps
  /\ \/ \E t \in Times : (Take(t) \/ Refuse(t)) /\ Op(<<"append", t>>)
     \/ Disk /\ disk' = <<[h |-> h, segs |-> segs, mn |-> mn, mx |-> mx]>> /\ UNCHANGED <<h, segs, mn, mx>> /\ Op(<<"save", 0>>)
     \/ /\ Disk /\ disk # <<>> /\ ops[Len(ops)] # <<"load", 0>>
        /\ h' = disk[1].h /\ segs' = disk[1].segs /\ mn' = disk[1].mn /\ mx' = disk[1].mx
        /\ UNCHANGED disk /\ Op(<<"load", 0>>)
     \/ \* another index is begun, where there already is a file
        /\ Disk /\ disk # <<>> /\ h # <<>>
        /\ h' = <<>> /\ segs' = <<>> /\ mn' = 0 /\ mx' = 0
        /\ UNCHANGED disk /\ Op(<<"new", 0>>)

------------------------------------------------------------------------------
(* Queries on the runs *)
End(s) == s[3] + s[1] * (s[4] - 1)
SegSample(y) ==
  LET in == {k \in 1..Len(segs) : segs[k][3] <= y /\ y <= End(segs[k])}
  IN IF in = {} THEN None
     ELSE LET s == segs[CHOOSE k \in in : \A j \in in : k <= j]
          IN IF s[1] = 0 THEN s[2] ELSE IF (y - s[3]) % s[1] # 0 THEN None ELSE s[2] + ((y - s[3]) \div s[1])
SegNext(y) ==
  LET from == {k \in 1..Len(segs) : y <= End(segs[k])}
  IN IF from = {} THEN None
     ELSE LET s == segs[CHOOSE k \in from : \A j \in from : k <= j]
          IN IF y <= s[3] THEN s[2] ELSE s[2] + (((y - s[3]) + s[1] - 1) \div s[1])
SegPrev(y) ==
  LET to == {k \in 1..Len(segs) : y >= segs[k][3]}
  IN IF to = {} THEN None
     ELSE LET s == segs[CHOOSE k \in to : \A j \in to : k >= j]
          IN IF y >= End(s) THEN s[2] + s[4] - 1 ELSE s[2] + ((y - s[3]) \div s[1])
SegTime(x) ==
  LET in == {k \in 1..Len(segs) : segs[k][2] <= x /\ x < segs[k][2] + segs[k][4]}
  IN IF in = {} THEN None ELSE LET s == segs[CHOOSE k \in in : TRUE] IN s[3] + s[1] * (x - s[2])
\* a range is reported empty when no run meets it
SegEmpty(a, b) == \A k \in 1..Len(segs) : b < segs[k][3] \/ a > End(segs[k])

Ys == LET m == CHOOSE t \in Times : \A u \in Times : u <= t IN (0 - 1)..(m + 2)
PositionsAgree == \A x \in (0 - 1)..(Len(h) + 1) : SegTime(x) = TimeAt(h, x)
CountAgrees == (IF segs = <<>> THEN 0 ELSE Cur[2] + Cur[4]) = Len(h)
SamplesAgree == \A y \in Ys : SegSample(y) = Exact(h, y)
NextAgrees == \A y \in Ys : (IF SegSample(y) # None THEN SegSample(y) ELSE SegNext(y)) = ThisOrNext(h, y)
PrevAgrees == \A y \in Ys : (IF SegSample(y) # None THEN SegSample(y) ELSE SegPrev(y)) = ThisOrPrevious(h, y)
BoundsAgree == h # <<>> => mn = h[1] /\ mx = h[Len(h)]
EmptyTruthful == \A a \in Ys : \A b \in a..(CHOOSE m \in Ys : \A u \in Ys : u <= m) :
                   /\ (SegEmpty(a, b) => ~Inhabited(h, a, b))
                   /\ (MustBeEmpty(h, Runs(h), a, b) => SegEmpty(a, b))
RunsAgree == Runs(h) = [k \in 1..Len(segs) |-> [m |-> segs[k][1], x |-> segs[k][2], from |-> segs[k][3], n |-> segs[k][4], to |-> End(segs[k])]]
OnlyForward == Valid(h)
\* a reload loses exactly what was appended since the last save
Durable == [][ops'[Len(ops')] = <<"load", 0>> => h' = disk[1].h]_vars
=============================================================================
