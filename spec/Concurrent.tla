----------------------------- MODULE Concurrent -----------------------------
(* Commands at the same time on one directory. A command reads its inputs,    *)
(* then writes each of its outputs: empties it, and puts its pieces at its    *)
(* own places. What is in an output depends on the inputs read alone. No      *)
(* command writes what another one reads, and two that write the same file    *)
(* are the same command. Then the order of the steps does not matter, nor     *)
(* what was at the outputs before.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pieces, Scenarios, Emit
VARIABLES sc, fs, pc, seen, turns, older

vars == <<sc, fs, pc, seen, turns, older>>
\* jobs: [reads, writes]
Job(r, w) == [reads |-> r, writes |-> w]
Jobs == <<
  <<Job(<<"a">>, <<"A">>), Job(<<"b">>, <<"B">>)>>,                           \* apart
  <<Job(<<"a">>, <<"A", "I">>), Job(<<"a">>, <<"C", "J">>)>>,                 \* the same input
  <<Job(<<"a">>, <<"A">>), Job(<<"a">>, <<"A">>)>>,                           \* the same command twice
  <<Job(<<"a", "b">>, <<"A">>), Job(<<"b">>, <<"B">>), Job(<<"b">>, <<"B">>)>> >>
Names == {"a", "b", "A", "B", "C", "I", "J"}
Files == Names
Content(n) == IF n = "a" THEN 1 ELSE 2
Whole(n) == [p \in 1..Pieces |-> Content(n)]
Nothing == [p \in 1..Pieces |-> 0]
Older == [p \in 1..Pieces |-> 99]
N == Len(Jobs[sc])
Written == UNION {{Jobs[sc][q].writes[k] : k \in 1..Len(Jobs[sc][q].writes)} : q \in 1..N}
\* steps of a job: reads, then for each output an opening and the pieces
Steps(j) == Len(j.reads) + Len(j.writes) * (Pieces + 1)
\* what a job makes of what it saw
Made(s) == [p \in 1..Pieces |-> 10 * s[1][p] + (IF Len(s) > 1 THEN s[2][p] ELSE 0)]
Init == /\ sc \in Scenarios
        /\ older \in BOOLEAN /\ fs = [n \in Files |-> IF n \in {"a", "b"} THEN Whole(n) ELSE IF n \in Written THEN (IF older THEN Older ELSE Nothing) ELSE Nothing]
        /\ pc = [q \in 1..N |-> 0] /\ seen = [q \in 1..N |-> <<>>] /\ turns = <<>>
Step(q) ==
  LET j == Jobs[sc][q]
      k == pc[q] - Len(j.reads)
      w == j.writes[1 + k \div (Pieces + 1)]
      p == k % (Pieces + 1)
  IN /\ pc[q] < Steps(j)
     /\ pc' = [pc EXCEPT ![q] = @ + 1]
     /\ IF k < 0 THEN seen' = [seen EXCEPT ![q] = Append(@, fs[j.reads[pc[q] + 1]])] /\ fs' = fs
        ELSE /\ seen' = seen
             /\ fs' = IF p = 0 THEN [fs EXCEPT ![w] = Nothing] ELSE [fs EXCEPT ![w][p] = Made(seen[q])[p]]
     /\ turns' = IF Emit THEN Append(turns, q) ELSE turns
     /\ sc' = sc /\ older' = older
     /\ (Emit /\ \A o \in 1..N : pc'[o] = Steps(Jobs[sc][o])) => PrintT("@" \o ToJson([sc |-> sc, turns |-> turns', older |-> older]))
Next == \E q \in 1..N : Step(q)
Over == \A q \in 1..N : pc[q] = Steps(Jobs[sc][q])
\* as if each ran by itself
Alone(j) == Made([k \in 1..Len(j.reads) |-> Whole(j.reads[k])])
Outputs == Written
AsAlone == Over => /\ \A q \in 1..N : \A k \in 1..Len(Jobs[sc][q].writes) : fs[Jobs[sc][q].writes[k]] = Alone(Jobs[sc][q])
                   /\ \A n \in Files \ Outputs : fs[n] = IF n \in {"a", "b"} THEN Whole(n) ELSE Nothing
InputsKept == fs["a"] = Whole("a") /\ fs["b"] = Whole("b")
=============================================================================
