----------------------------- MODULE CsvToolMC -----------------------------
(* Sequences of runs of the CSV tool over a small directory. A content is     *)
(* [kind, t, v]: t says whose timestamps, v whose values are in it.           *)
EXTENDS CsvTool, TLC, Json

CONSTANTS MaxRuns, EmitFrom, Places
VARIABLES fs, runs, rc

vars == <<fs, runs, rc>>
X == <<120>> \o CsvExt                       \* x.csv
Y == <<121, 46, 100, 97, 116>>               \* y.dat, a CSV file too
Z == <<122>> \o CsvExt                       \* z.csv, not a CSV file
M == <<109>> \o CsvExt                       \* not there
D == <<100>>                                 \* d, a directory
O == <<111, 46, 97, 110, 121>>               \* o.any
DO == D \o <<47, 111>>                       \* d/o
NO == <<110, 47, 111, 46, 99, 115, 118>>     \* n/o.csv, in no directory
Bro(n) == WithExt(n, BroExt)
C(kind, t, v) == [kind |-> kind, t |-> t, v |-> v]
Dir == C("dir", 0, 0)
Outs == IF Places = 1 THEN {<<>>, O, D} ELSE {<<>>, O, D, DO, NO}     \* -o d stands for d.bro and so on, not for a place in d
Comp == [cmd : {"compress"}, name : {X, Y, Z, M}, out : Outs, raw : BOOLEAN, index : BOOLEAN, pack : BOOLEAN]
Back == [cmd : {"uncompress"}, name : {Bro(X), Bro(Y), Bro(O), Bro(D), X, WithExt(X, VsriExt)}, out : Outs, raw : {FALSE}, index : {FALSE}, pack : {FALSE}]

Init == fs = {<<X, C("csv", 1, 1)>>, <<Y, C("csv", 2, 2)>>, <<Z, C("bad", 0, 0)>>, <<D, Dir>>} /\ runs = <<>> /\ rc = 0
Folders == {f[1] : f \in {g \in fs : g[2].kind = "dir"}}
Parts(r) == IF r.cmd = "compress"
            THEN LET c == Get(fs, r.name) IN [raw |-> C("raw", 0, c.v), index |-> C("index", c.t, 0), bro |-> C("bro", 0, c.v)]
            ELSE LET c == Get(fs, r.name) IN [raw |-> C("raw", 0, c.v), rows |-> C("csv", Get(fs, IndexOf(r)).t, c.v)]
Works(r) == ~Missing(fs, r, Folders) /\ ~NoPlace(fs, r, Folders)
            /\ IF r.cmd = "compress" THEN Get(fs, r.name).kind = "csv" ELSE Get(fs, r.name).kind = "bro"
Foreign(r) == r.cmd = "uncompress" /\ Has(fs, r.name) /\ Get(fs, r.name).kind # "bro"
Next == /\ Len(runs) < MaxRuns
        /\ \E r \in Comp \cup Back :
             /\ runs' = Append(runs, r)
             /\ fs' = IF Works(r) THEN Written(fs, r, Parts(r)) ELSE fs
             /\ rc' = IF Works(r) \/ Foreign(r) THEN 0 ELSE 1
             /\ (Len(runs') >= EmitFrom => PrintT("@" \o ToJson(runs')))

Changed == {f[1] : f \in fs' \ fs} \cup {n \in {f[1] : f \in fs} : ~Has(fs', n)}
\* only the files asked for change, and none goes away
OnlyAsked == [][LET r == runs'[Len(runs')] IN Changed \subseteq {WithExt(Base(r), Asked(r)[k][1]) : k \in 1..Len(Asked(r))}]_vars
NoneLost == [][{f[1] : f \in fs} \subseteq {f[1] : f \in fs'}]_vars
\* a compression never writes its own input; a run that fails changes nothing
InputKept == [][LET r == runs'[Len(runs')] IN r.cmd = "compress" /\ Has(fs, r.name) => Get(fs', r.name) = Get(fs, r.name)]_vars
Failing == [][rc' # 0 => fs' = fs]_vars
\* there and back: the rows are those of the file, if both parts come from it
ThereAndBack == \A f \in fs : f[2].kind = "csv" => f[2].t \in {1, 2} /\ f[2].v \in {1, 2}
OneContentEach == \A f, g \in fs : f[1] = g[1] => f = g
RoundTrip == LET n == Len(runs) IN
  n >= 2 /\ runs[n].cmd = "uncompress" /\ runs[n - 1].cmd = "compress" /\ rc = 0 /\ runs[n - 1].name \in {X, Y} /\ runs[n - 1].pack /\ runs[n - 1].index
  /\ runs[n].name = WithExt(Base(runs[n - 1]), BroExt) /\ ~NoPlace(fs, runs[n - 1], Folders)
  /\ (n = 2 \/ n = 3)
  => LET k == IF runs[n - 1].name = X THEN 1 ELSE 2 IN n = 2 => Get(fs, WithExt(Base(runs[n]), CsvExt)) = C("csv", k, k)
=============================================================================
