------------------------------ MODULE WbroGen ------------------------------
(* Files in the layout, with blocks cut at any length: all denote a series,   *)
(* and every reader must find it. (The blocks stand in their order: readers   *)
(* refuse files whose parts are not laid out front to back.)                  *)
EXTENDS Wbro, TLC, Json
CONSTANTS Big
VARIABLES lens,       \* lengths of the blocks, in the order of the series
          place       \* the order in which their samples stand in the file

W(k) == <<k % 65536, (k * 9) % 65536, 32752 + (k % 3), (k * 16384) % 65536>>
Init == lens = <<>> /\ place = <<>>
PutParts ==
  LET n == FoldLeft(LAMBDA a, x : a + x, 0, lens)
      k == Len(lens)
      before(j) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(lens, 1, j - 1))
      part(j) == FoldLeft(LAMBDA acc, q : acc \o Bytes8(W(before(j) + q)), <<>>, [q \in 1..lens[j] |-> q])
      at(j) == 8 * FoldLeft(LAMBDA a, q : IF place[q] < place[j] THEN a + lens[q] ELSE a, 0, [q \in 1..k |-> q])
      order == [q \in 1..k |-> CHOOSE j \in 1..k : place[j] = q]
      samples == FoldLeft(LAMBDA acc, q : acc \o part(order[q]), <<>>, [q \in 1..k |-> q])
      table == 8 * n
  IN Magic12 \o samples
     \o FoldLeft(LAMBDA acc, j : acc \o Le4(at(j) - (table + 8 * (j - 1))) \o Le4(lens[j]), <<>>, [j \in 1..k |-> j])
     \o Le4(0 - 8 * k) \o Le4(k) \o Le4(n) \o <<5, 0, 0, 0>>
Next == /\ lens = <<>>
        /\ \E k \in 0..(IF Big THEN 5 ELSE 4) :
             /\ lens' \in [1..k -> 1..(IF Big THEN 5 ELSE 3)]
             /\ place' = [q \in 1..k |-> q]
        /\ PrintT("@" \o ToJson([bytes |-> PutParts']))
Reads == LET g == GetWbro(PutParts)
             n == FoldLeft(LAMBDA a, x : a + x, 0, lens)
         IN g = <<[count |-> n, depth |-> 5, blocks |-> lens, data |-> [k \in 1..n |-> W(k)]]>>
=============================================================================
