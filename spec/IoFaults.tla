------------------------------ MODULE IoFaults ------------------------------
(* A command reads its inputs in pieces, and writes its outputs in pieces;    *)
(* at each call the system decides: it delivers (or takes) all that is asked  *)
(* for, half of it, one byte, is interrupted, fails, or the command is killed *)
(* before the call. plan says what becomes of each call. After a run that     *)
(* did not succeed the command is run again, with a system that does all.     *)
(* Reads and writes have sizes; what matters of a content is how much of it   *)
(* there is.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Calls, MaxFaults, Acts, Sizes, Piece, Retries
VARIABLES ins, outs,           \* sizes of inputs and outputs
          plan, call,          \* the calls made
          ph, k, at, read, written, runs, gave

vars == <<ins, outs, plan, call, ph, k, at, read, written, runs, gave>>
Plans == {p \in [1..Calls -> Acts \cup {"full"}] : Cardinality({c \in 1..Calls : p[c] # "full"}) \in 1..MaxFaults}
Files == [{1} -> Sizes] \cup [{1, 2} -> Sizes]
Min(a, b) == IF a < b THEN a ELSE b
Act == IF runs = 1 /\ call <= Calls THEN plan[call] ELSE "full"
Zero(s) == [j \in DOMAIN s |-> 0]

Init == /\ plan \in Plans /\ call = 1
        /\ ins \in Files /\ outs \in Files
        /\ ph = "read" /\ k = 1 /\ at = 0 /\ read = Zero(ins) /\ written = Zero(outs) /\ runs = 1 /\ gave = "full"
\* the bytes of a call that asks for n, of which m are there
Moved(a, n, m) == LET p == IF a = "short" THEN (n + 1) \div 2 ELSE IF a = "one" THEN 1 ELSE n IN Min(p, m)
Broken(a) == a = "fail" \/ (a = "intr" /\ ~Retries)
Answer == /\ call' = call + 1
          /\ gave' = IF Act \in {"kill", "fail", "intr"} THEN Act ELSE gave
Die == ph \in {"read", "write"} /\ Answer /\ Act = "kill" /\ ph' = "killed" /\ UNCHANGED <<ins, outs, plan, k, at, read, written, runs>>
Fail == ph \in {"read", "write"} /\ Answer /\ Broken(Act) /\ ph' = "failed" /\ UNCHANGED <<ins, outs, plan, k, at, read, written, runs>>
Again == ph \in {"read", "write"} /\ Answer /\ Act = "intr" /\ Retries /\ UNCHANGED <<ins, outs, plan, ph, k, at, read, written, runs>>
Read == /\ ph = "read" /\ Act \notin {"kill", "fail", "intr"} /\ Answer
        /\ LET m == Moved(Act, Piece, ins[k] - read[k])
           IN /\ read' = [read EXCEPT ![k] = @ + m]
              /\ IF m > 0 THEN UNCHANGED <<ph, k>>                   \* the end of a file is known when nothing comes
                 ELSE IF k < Len(ins) THEN k' = k + 1 /\ ph' = ph
                 ELSE k' = 1 /\ ph' = "write"
        /\ UNCHANGED <<ins, outs, plan, at, written, runs>>
\* opening an output empties it
Write == /\ ph = "write" /\ Act \notin {"kill", "fail", "intr"} /\ Answer
         /\ IF at = 0 THEN written' = [written EXCEPT ![k] = 0] /\ at' = 1 /\ UNCHANGED <<ph, k>>
            ELSE LET m == Moved(Act, Piece, outs[k] - written[k])
                 IN /\ written' = [written EXCEPT ![k] = @ + m]
                    /\ IF written[k] + m < outs[k] THEN UNCHANGED <<ph, k, at>>
                       ELSE IF k < Len(outs) THEN k' = k + 1 /\ at' = 0 /\ ph' = ph
                       ELSE k' = 1 /\ at' = 0 /\ ph' = "success"
         /\ UNCHANGED <<ins, outs, plan, read, runs>>
Rerun == /\ ph \in {"killed", "failed"} /\ runs = 1
         /\ runs' = 2 /\ ph' = "read" /\ k' = 1 /\ at' = 0 /\ read' = Zero(ins)
         /\ UNCHANGED <<ins, outs, plan, call, written, gave>>
Next == Die \/ Fail \/ Again \/ Read \/ Write \/ Rerun
Complete == ph = "success" => read = ins /\ written = outs
\* pieces alone never make a run fail; nor does anything make the second run fail
Pieces == ph = "failed" => gave \in {"fail", "intr"} /\ runs = 1
Ends == (ph \in {"success", "failed", "killed"} \/ ENABLED Next)
=============================================================================
