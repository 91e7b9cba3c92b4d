-------------------------------- MODULE Cli --------------------------------
(* What a command does to a directory tree. Names are sequences of character  *)
(* codes ('/' is 47, '.' is 46); a tree is a set of <<name, content>>.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Dot == 46
Slash == 47
BroExt == <<46, 98, 114, 111>>
WbroExt == <<46, 119, 98, 114, 111>>
VsriExt == <<46, 118, 115, 114, 105>>
CsvExt == <<46, 99, 115, 118>>
WavbroExt == <<46, 119, 97, 118, 98, 114, 111>>

\* the name with another extension: the last dot of the last component counts, unless it begins it
Stem(name) ==
  LET from == FoldLeft(LAMBDA a, k : IF name[k] = Slash THEN k ELSE a, 0, [k \in 1..Len(name) |-> k])
      dot == FoldLeft(LAMBDA a, k : IF k > from + 1 /\ name[k] = Dot THEN k ELSE a, 0, [k \in 1..Len(name) |-> k])
  IN IF dot = 0 THEN name ELSE SubSeq(name, 1, dot - 1)
WithExt(name, ext) == Stem(name) \o ext

\* what the first bytes say a file is
Wbro4 == <<87, 66, 82, 79>>
Brro4 == <<66, 82, 82, 79>>
KindOf(head) == IF Len(head) >= 12 /\ SubSeq(head, 1, 4) = Wbro4 /\ SubSeq(head, 9, 12) = Wbro4 THEN "wbro"
                ELSE IF Len(head) >= 4 /\ SubSeq(head, 1, 4) = Brro4 THEN "bro" ELSE "foreign"

Has(fs, name) == \E f \in fs : f[1] = name
Get(fs, name) == (CHOOSE f \in fs : f[1] = name)[2]
Put(fs, name, c) == {f \in fs : f[1] # name} \cup {<<name, c>>}
\* files directly in a directory
In(dir, name) == /\ Len(name) > Len(dir) + 1
                 /\ SubSeq(name, 1, Len(dir)) = dir /\ name[Len(dir) + 1] = Slash
                 /\ \A k \in (Len(dir) + 2)..Len(name) : name[k] # Slash
=============================================================================
