------------------------------- MODULE WbroMC -------------------------------
(* The life of a raw series: samples are appended one by one, the series is   *)
(* saved, loaded back, or another series is written over the file in bulk.    *)
(* Series are prefixes of one fixed sequence, so that their length says what  *)
(* they are; blocks are filled as the code fills them. Lengths are the real   *)
(* ones. Every sequence of operations is emitted, to be replayed.             *)
EXTENDS Wbro, TLC, Json

CONSTANTS Counts, Bulks, MaxOps, MaxLen, EmitFrom
VARIABLES n, blocks, file, ops

vars == <<n, blocks, file, ops>>
Absent == [n |-> 0 - 1, blocks |-> <<>>]
RECURSIVE Fill(_, _)
Fill(bl, k) ==
  IF k = 0 THEN bl
  ELSE LET room == IF bl = <<>> THEN 0 ELSE BlockSize - bl[Len(bl)]
       IN IF room = 0 THEN LET t == IF k < BlockSize THEN k ELSE BlockSize IN Fill(Append(bl, t), k - t)
          ELSE LET t == IF k < room THEN k ELSE room IN Fill([bl EXCEPT ![Len(bl)] = @ + t], k - t)

Init == n = 0 /\ blocks = <<>> /\ file = Absent /\ ops = <<>>
Op(o) == /\ ops' = Append(ops, o)
         /\ Len(ops') >= EmitFrom => PrintT("@" \o ToJson([ops |-> ops']))
Next ==
  /\ Len(ops) < MaxOps
  /\ \/ \E k \in Counts : /\ n + k <= MaxLen
                          /\ n' = n + k /\ blocks' = Fill(blocks, k) /\ UNCHANGED file
                          /\ Op([op |-> "append", from |-> n, n |-> k])
     \/ file' = [n |-> n, blocks |-> blocks] /\ UNCHANGED <<n, blocks>> /\ Op([op |-> "save", from |-> 0, n |-> n])
     \/ \E k \in Bulks : file' = [n |-> k, blocks |-> Blocks(k)] /\ UNCHANGED <<n, blocks>> /\ Op([op |-> "bulk", from |-> 0, n |-> k])
     \/ /\ file # Absent /\ ops # <<>> /\ ops[Len(ops)].op # "reload"
        /\ n' = file.n /\ blocks' = file.blocks /\ UNCHANGED file
        /\ Op([op |-> "reload", from |-> 0, n |-> file.n])

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* sample by sample gives what bulk gives
Canonical == blocks = Blocks(n) /\ (file # Absent => file.blocks = Blocks(file.n))
Counted == Sum(blocks) = n
FullBlocks == \A k \in 1..Len(blocks) : blocks[k] >= 1 /\ (k < Len(blocks) => blocks[k] = BlockSize)
\* the layout gives back what was put in (on a short series and its file)
Short == LET s == [k \in 1..(IF n <= 40 THEN n ELSE 40) |-> <<k % 65536, (k * 7) % 65536, 255, 32768 + (k % 2)>>]
         IN GetWbro(PutWbro(s)) = <<[count |-> Len(s), depth |-> 5, blocks |-> Blocks(Len(s)), data |-> s]>>
=============================================================================
