----------------------------- MODULE CsvCompMC -----------------------------
(* All small files of rows of one day, built row by row by a step in time and *)
(* a kind of value. Index and series stay side by side, and the rows come     *)
(* back; every file is emitted and run through the real tool.                 *)
EXTENDS CsvComp, TLC, Json

CONSTANTS MaxRows, Steps, Backwards, Starts, EmitFrom
VARIABLES rows, ph

vars == <<rows, ph>>
\* values by position: distinct, so that a shift shows
Val(k, fin) == IF fin THEN <<0, 0, 0, 16368 + k>> ELSE IF k % 3 = 0 THEN <<0, 0, 0, 32752>> ELSE IF k % 3 = 1 THEN <<0, 0, 0, 32760>> ELSE <<0, 0, 0, 65520>>
Init == rows = <<>> /\ ph = "rows"
AddRow == /\ ph = "rows" /\ Len(rows) < MaxRows
          /\ \E d \in (IF rows = <<>> THEN Starts ELSE Steps \cup {0 - b : b \in Backwards}) : \E fin \in BOOLEAN :
               LET s == IF rows = <<>> THEN d ELSE rows[Len(rows)].sec + d
               IN /\ s \in 0..86399
                  /\ rows' = Append(rows, [day |-> 0, sec |-> s, ms |-> (Len(rows) * 331) % 1000, fin |-> fin, w |-> Val(Len(rows) + 1, fin), bad |-> FALSE])
          /\ UNCHANGED ph
Emit == /\ ph = "rows" /\ Len(rows) >= EmitFrom /\ ph' = "emitted" /\ UNCHANGED rows
        /\ PrintT("@" \o ToJson([rows |-> rows]))
Next == AddRow \/ Emit

R == Run(rows)
SideBySide == Len(R.h) = Len(R.s) /\ Valid(R.h)
Refused == R.ok <=> ~OutOfOrder(Kept(rows))
QuickRun == /\ OutOfOrder(rows) = Descends(rows) /\ OutOfOrder(Kept(rows)) = Descends(Kept(rows))
            /\ (R.ok => R = Taken(rows))
ComeBack == R.ok => Rows(R, R.s) = [k \in 1..Len(Kept(rows)) |-> [sec |-> Kept(rows)[k].sec, w |-> Kept(rows)[k].w]]
\* the stored form of the index (regular runs) gives the same times
FromRuns(x) == LET rs == Runs(R.h)
                   at == CHOOSE k \in 1..Len(rs) : rs[k].x <= x /\ x < rs[k].x + rs[k].n
               IN rs[at].from + rs[at].m * (x - rs[at].x)
StoredAlike == \A x \in 0..(Len(R.h) - 1) : FromRuns(x) = TimeAt(R.h, x)
=============================================================================
