------------------------------- MODULE CsvMC -------------------------------
(* Small CSV files, built row by row: every order of columns, header names,   *)
(* cells that are numbers, odd numbers or no numbers, short rows, quoting,    *)
(* line ends and blank lines. Every file is emitted with how it is read.      *)
EXTENDS Csv, TLC, Json

CONSTANTS MaxRows, Wide
VARIABLES hdr, rows, how, ph

vars == <<hdr, rows, how, ph>>
Time == <<116, 105, 109, 101>>
Value == <<118, 97, 108, 117, 101>>
Other == <<111, 32, 44, 120>>                      \* "o ,x"
Upper == <<86, 97, 108, 117, 101>>                 \* "Value"
\* headers, and none; the names asked for
Headers == << [has |-> TRUE, names |-> <<Time, Value>>], [has |-> TRUE, names |-> <<Value, Time>>],
              [has |-> TRUE, names |-> <<Other, Value, Time>>], [has |-> TRUE, names |-> <<Time, Other, Value>>],
              [has |-> TRUE, names |-> <<Time>>], [has |-> TRUE, names |-> <<Other, Value>>], [has |-> TRUE, names |-> <<Time, Upper>>],
              [has |-> FALSE, names |-> <<>>],
              [has |-> TRUE, names |-> <<Value, Other, Upper, Time>>] >>
Asked == << [time |-> Time, value |-> Value], [time |-> Time, value |-> Upper], [time |-> Value, value |-> Value] >>

W(a, b, c, d) == [is |-> "num", w |-> <<a, b, c, d>>]
Cells == << Cell(<<49>>, W(0, 0, 0, 16368)),                                    \* 1
            Cell(<<45, 50, 46, 53>>, W(0, 0, 0, 49156)),                        \* -2.5
            Cell(<<78, 97, 78>>, Odd),                                    \* NaN
            Cell(<<120>>, BadNum),                                           \* x
            Cell(<<>>, BadNum),                                              \* empty
            Cell(<<46, 53>>, W(0, 0, 0, 16352)),                                \* .5
            Cell(<<49, 101, 51>>, W(0, 0, 16384, 16527)),                       \* 1e3
            Cell(<<45, 105, 110, 102>>, Odd),                             \* -inf
            Cell(<<49, 44, 53>>, BadNum),                                    \* 1,5
            Cell(<<43, 55>>, W(0, 0, 0, 16412)),                                \* +7
            Cell(<<49, 32>>, BadNum),                                        \* 1 with a space behind
            Cell(<<48, 120, 49>>, BadNum),                                   \* 0x1
            Cell(<<45, 48>>, W(0, 0, 0, 32768)),                                \* -0
            Cell(<<105, 34, 10>>, BadNum) >>                                 \* i"<newline>
OfCells == IF Wide THEN 1..Len(Cells) ELSE {1, 2, 3, 4, 5, 9}
\* what stands in the other columns says nothing
Junk == << Cell(<<>>, BadNum), Cell(<<97, 44, 34, 10, 98>>, BadNum), Cell(<<57, 57>>, W(0, 49152, 0, 16472)) >>

Hows == << [quoted |-> FALSE, eol |-> <<LF>>, blanks |-> {}, final |-> TRUE], [quoted |-> TRUE, eol |-> <<CR, LF>>, blanks |-> {}, final |-> TRUE],
           [quoted |-> FALSE, eol |-> <<CR, LF>>, blanks |-> {2, 3}, final |-> FALSE], [quoted |-> TRUE, eol |-> <<LF>>, blanks |-> {1, 2}, final |-> FALSE] >>

Init == /\ hdr \in 1..Len(Headers) /\ rows = <<>> /\ ph = "rows"
        /\ how \in 1..Len(Hows)
H == Headers[hdr]
\* the column that is asked for holds cell c, the others junk
RowOf(c, valueName) ==
  IF ~H.has THEN <<Cells[c]>>
  ELSE [k \in 1..Len(H.names) |-> IF H.names[k] = valueName THEN Cells[c] ELSE Junk[((k + c) % 3) + 1]]
Short(row) == SubSeq(row, 1, Len(row) - 1)
AddRow == /\ ph = "rows" /\ Len(rows) < MaxRows
          /\ \E c \in OfCells : \E cut \in {FALSE, TRUE} :
               /\ cut => (H.has /\ Len(H.names) >= 2 /\ c <= 2)
               /\ rows' = Append(rows, IF cut THEN Short(RowOf(c, Value)) ELSE RowOf(c, Value))
          /\ UNCHANGED <<hdr, how, ph>>
Texts(row) == [k \in 1..Len(row) |-> row[k].text]
Lines == (IF H.has THEN <<H.names>> ELSE <<>>) \o [k \in 1..Len(rows) |-> Texts(rows[k])]
File(q) == PutFile(Lines, q.quoted, q.eol, q.blanks, q.final)
Emit == /\ ph = "rows" /\ ph' = "emitted" /\ UNCHANGED <<hdr, rows, how>>
        /\ \E a \in 1..Len(Asked) :
             /\ a # 1 => H.has
             /\ PrintT("@" \o ToJson([bytes |-> File(Hows[how]), has |-> H.has, header |-> H.names, rows |-> rows,
                                      time |-> Asked[a].time, value |-> Asked[a].value]))
Next == AddRow \/ Emit
\* how a table is written down can be undone for the value column: a refused file has a reason, an accepted one has all its rows
Sane == \A a \in 1..Len(Asked) :
          LET r == Read(H.has, H.names, rows, Asked[a].time, Asked[a].value)
          IN r.ok => Len(r.data) = Len(rows) /\ \A k \in 1..Len(rows) : r.data[k].is # "bad"
=============================================================================
