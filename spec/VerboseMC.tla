----------------------------- MODULE VerboseMC -----------------------------
(* What the command prints. A run goes through its files one after another,   *)
(* in some order; with --verbose it prints a line for each: the samples that  *)
(* it compresses, or those that come out.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxFiles
VARIABLES run, left, lines

Label(r) == IF r.front = "bro" THEN "Output" ELSE "Input"
Runs == [front : {"wbro", "csv", "plain", "bro"}, verbose : BOOLEAN, dir : BOOLEAN, files : 1..MaxFiles]
Init == run \in {r \in Runs : r.dir \/ r.files = 1} /\ left = 1..run.files /\ lines = <<>> /\ PrintT("@" \o ToJson(run))
Next == \E f \in left : /\ left' = left \ {f}
                        /\ lines' = IF run.verbose THEN Append(lines, [label |-> Label(run), of |-> f]) ELSE lines
                        /\ UNCHANGED run
OneEach == left = {} => /\ Len(lines) = (IF run.verbose THEN run.files ELSE 0)
                        /\ \A a, b \in 1..Len(lines) : a # b => lines[a].of # lines[b].of
=============================================================================
