-------------------------------- MODULE Wbro --------------------------------
(* Raw-series (WBRO) files. A file is a 12-byte header, the samples as        *)
(* little-endian 64-bit floats, a table of blocks and a root record:          *)
(*   root  = [table: i32 offset from here][blocks: u32][samples: u32][5, 0, 0, 0] *)
(*   entry = [samples of the block: i32 offset from here][length: u32]        *)
(* Blocks hold BlockSize samples, the last one the rest.                      *)
EXTENDS Integers, Sequences, SequencesExt

BlockSize == 2048
FailW == <<>>
Magic12 == <<87, 66, 82, 79, 48, 48, 48, 48, 87, 66, 82, 79>>
Blocks(n) == IF n = 0 THEN <<>>
             ELSE LET k == (n - 1) \div BlockSize
                  IN [j \in 1..(k + 1) |-> IF j <= k THEN BlockSize ELSE n - (k * BlockSize)]
FileLen(n) == 12 + 8 * n + 8 * Len(Blocks(n)) + 16

\* 32-bit little-endian integers (signed: complement)
Le4(v) == IF v >= 0 THEN <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216>>
          ELSE LET c == 0 - (v + 1)
               IN <<255 - (c % 256), 255 - ((c \div 256) % 256), 255 - ((c \div 65536) % 256), 255 - (c \div 16777216)>>
GetLe4(b, at) == IF b[at + 3] < 128 THEN b[at] + 256 * (b[at + 1] + 256 * (b[at + 2] + 256 * b[at + 3]))
                 ELSE (0 - 1) - ((255 - b[at]) + 256 * ((255 - b[at + 1]) + 256 * ((255 - b[at + 2]) + 256 * (255 - b[at + 3]))))
\* a sample: four 16-bit words, least significant first
Bytes8(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256, w[3] % 256, w[3] \div 256, w[4] % 256, w[4] \div 256>>
Words4(b, at) == <<b[at] + 256 * b[at + 1], b[at + 2] + 256 * b[at + 3], b[at + 4] + 256 * b[at + 5], b[at + 6] + 256 * b[at + 7]>>

\* positions in the body count from 0
PutBody(s) ==
  LET n == Len(s)
      bl == Blocks(n)
      table == 8 * n
      root == table + 8 * Len(bl)
      samples == [k \in 1..(8 * n) |-> Bytes8(s[((k - 1) \div 8) + 1])[((k - 1) % 8) + 1]]
      entries == FoldLeft(LAMBDA acc, j : acc \o Le4((8 * BlockSize * (j - 1)) - (table + 8 * (j - 1))) \o Le4(bl[j]), <<>>,
                          [j \in 1..Len(bl) |-> j])
  IN samples \o entries \o Le4(table - root) \o Le4(Len(bl)) \o Le4(n) \o <<5, 0, 0, 0>>
PutWbro(s) == Magic12 \o PutBody(s)

HeaderOk(b) == Len(b) >= 12 /\ SubSeq(b, 1, 4) = SubSeq(Magic12, 1, 4) /\ SubSeq(b, 9, 12) = SubSeq(Magic12, 9, 12)
\* whatever the order in which blocks were laid out
GetWbro(b) ==
  IF ~HeaderOk(b) \/ Len(b) < 28 THEN FailW
  ELSE
  LET root == Len(b) - 15                    \* positions in b count from 1
      table == root + GetLe4(b, root)
      k == GetLe4(b, root + 4)
      n == GetLe4(b, root + 8)
      at(j) == LET e == table + 8 * (j - 1) IN [pos |-> e + GetLe4(b, e), len |-> GetLe4(b, e + 4)]
      inside == /\ k >= 0 /\ k * 8 < Len(b) /\ table >= 13 /\ table + 8 * k <= root
                /\ \A j \in 1..k : at(j).len >= 0 /\ at(j).len * 8 < Len(b) /\ at(j).pos >= 13 /\ at(j).pos + 8 * at(j).len <= root
  IN IF ~inside THEN FailW
     ELSE <<[count |-> n, depth |-> b[root + 12], blocks |-> [j \in 1..k |-> at(j).len],
             data |-> FoldLeft(LAMBDA acc, j : acc \o [q \in 1..at(j).len |-> Words4(b, at(j).pos + 8 * (q - 1))], <<>>, [j \in 1..k |-> j])]>>
=============================================================================
