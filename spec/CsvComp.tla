------------------------------ MODULE CsvComp ------------------------------
(* The CSV tool: rows of (millisecond timestamp, value) go into a time index  *)
(* and a series that are kept side by side, and come back as rows. A row is   *)
(* [day, sec, ms, fin, w, bad]: its UTC day, second of the day, millisecond,  *)
(* and value (fin: finite); bad: it is not a timestamp and a number at all.   *)
EXTENDS Vsri

Kept(rows) == SelectSeq(rows, LAMBDA r : r.fin)
Malformed(rows) == \E k \in 1..Len(rows) : rows[k].bad
SameDay(rows) == \A k \in 1..Len(rows) : rows[k].day = rows[1].day
\* the second of some row is earlier than that of a row before it
OutOfOrder(rows) == \E k \in 1..Len(rows) : \E j \in 1..(k - 1) : rows[k].sec < rows[j].sec
Descends(rows) == \E k \in 2..Len(rows) : rows[k].sec < rows[k - 1].sec
Secs(rows) == [k \in 1..Len(rows) |-> rows[k].sec]
Words(rows) == [k \in 1..Len(rows) |-> rows[k].w]

\* what the tool does with one row: [h: the index, s: the series, ok]
Start == [h |-> <<>>, s |-> <<>>, ok |-> TRUE]
Step(st, r) == IF ~st.ok \/ (~r.fin /\ ~r.bad) THEN st
               ELSE IF r.bad THEN [st EXCEPT !.ok = FALSE]
               ELSE IF Accepts(st.h, r.sec) THEN [st EXCEPT !.h = Append(@, r.sec), !.s = Append(@, r.w)]
               ELSE [st EXCEPT !.ok = FALSE]
Run(rows) == FoldLeft(Step, Start, rows)
\* the same, where every finite row is taken (CsvCompMC: QuickRun)
Taken(rows) == LET k == Kept(rows) IN [h |-> Secs(k), s |-> Words(k), ok |-> TRUE]
\* and with the index and a series decompressed from the stream
Rows(st, series) == [k \in 1..Len(series) |-> [sec |-> TimeAt(st.h, k - 1), w |-> series[k]]]
=============================================================================
