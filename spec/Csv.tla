-------------------------------- MODULE Csv --------------------------------
(* CSV input. A file is an abstract table - a header (or none) and rows of    *)
(* cells - and a way of writing it down: which cells are quoted, how lines    *)
(* end, where blank lines stand. Reading is defined on the table, and must    *)
(* not depend on how it is written down.                                      *)
EXTENDS Integers, Sequences, SequencesExt

\* cells: their text, and what a number it is: "num" (a 64-bit float w), "odd" (NaN or infinite), "bad"
Cell(text, num) == [text |-> text, is |-> num.is, w |-> num.w]
Odd == [is |-> "odd", w |-> <<>>]
BadNum == [is |-> "bad", w |-> <<>>]
Comma == 44
Quote == 34
LF == 10
CR == 13

NeedsQuotes(t) == \E k \in 1..Len(t) : t[k] \in {Comma, Quote, LF, CR}
Escaped(t) == FoldLeft(LAMBDA a, ch : IF ch = Quote THEN a \o <<Quote, Quote>> ELSE Append(a, ch), <<>>, t)
PutCell(t, quoted) == IF quoted \/ NeedsQuotes(t) THEN <<Quote>> \o Escaped(t) \o <<Quote>> ELSE t
\* a row of one empty cell would be a blank line: it is quoted
PutRow(row, quoted) ==
  IF row = <<<<>>>> THEN <<Quote, Quote>>
  ELSE FoldLeft(LAMBDA a, k : (IF k = 1 THEN a ELSE Append(a, Comma)) \o PutCell(row[k], quoted), <<>>, [k \in 1..Len(row) |-> k])
\* lines: sequence of rows (texts); blank: positions before which a blank line stands
PutFile(lines, quoted, eol, blanks, final) ==
  FoldLeft(LAMBDA a, k : a \o (IF k \in blanks THEN eol ELSE <<>>) \o PutRow(lines[k], quoted)
                           \o (IF k < Len(lines) \/ final THEN eol ELSE <<>>),
           <<>>, [k \in 1..Len(lines) |-> k])

Index(s, x) == LET at == {k \in 1..Len(s) : s[k] = x} IN IF at = {} THEN 0 ELSE CHOOSE k \in at : \A j \in at : k <= j

Refuse == [ok |-> FALSE, data |-> <<>>]
\* rows: sequences of cells. The values, in order; odd ones are kept here (compression drops them)
Values(rows, col) ==
  IF \E k \in 1..Len(rows) : Len(rows[k]) < col \/ rows[k][col].is = "bad" THEN Refuse
  ELSE [ok |-> TRUE, data |-> [k \in 1..Len(rows) |-> rows[k][col]]]
Read(hasHeader, header, rows, timeName, valueName) ==
  IF ~hasHeader THEN Values(rows, 1)
  ELSE IF Index(header, timeName) = 0 \/ Index(header, valueName) = 0 THEN Refuse
  ELSE IF \E k \in 1..Len(rows) : Len(rows[k]) # Len(header) THEN Refuse
  ELSE Values(rows, Index(header, valueName))
Finite(data) == LET f == SelectSeq(data, LAMBDA n : n.is = "num") IN [k \in 1..Len(f) |-> f[k].w]
=============================================================================
