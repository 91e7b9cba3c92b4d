----------------------------- MODULE FaultPlans -----------------------------
(* The plans of IoFaults, for the conformance runs: at most MaxFaults calls   *)
(* of the first Calls do not get what they ask for.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Calls, MaxFaults, Acts
VARIABLE plan
Init == plan = <<>>
\* faults in order of the calls
Next == /\ Len(plan) < MaxFaults
        /\ \E c \in 1..Calls, a \in Acts : (IF plan = <<>> THEN TRUE ELSE c > plan[Len(plan)].call /\ plan[Len(plan)].act # "kill")
                                            /\ plan' = Append(plan, [call |-> c, act |-> a])
        /\ PrintT("@" \o ToJson(plan'))
InOrder == \A j \in 2..Len(plan) : plan[j - 1].call < plan[j].call
=============================================================================
