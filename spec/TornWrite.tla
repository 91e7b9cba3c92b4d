----------------------------- MODULE TornWrite -----------------------------
(* A command writes its outputs one after another, each in pieces. The system *)
(* takes at most Limit bytes per file: a write is then cut short, and the     *)
(* next one fails. A command that writes everything it is asked to and looks  *)
(* at every answer reports success only if every output is complete.          *)
EXTENDS Naturals, Sequences
CONSTANTS Sizes, MaxOutputs, MaxLimit, Piece
VARIABLES outs,      \* sizes of the outputs
          limit, k,  \* the output being written
          done,      \* bytes written, by output
          ph

vars == <<outs, limit, k, done, ph>>
Init == /\ outs \in UNION {[1..n -> Sizes] : n \in 1..MaxOutputs}
        /\ limit \in 0..MaxLimit
        /\ k = 1 /\ done = [j \in DOMAIN outs |-> 0] /\ ph = "writing"
\* the bytes the system takes of a write of n
Taken(n, at) == IF at + n <= limit THEN n ELSE IF at < limit THEN limit - at ELSE 0
Write == /\ ph = "writing" /\ k <= Len(outs) /\ done[k] < outs[k]
         /\ LET want == IF outs[k] - done[k] < Piece THEN outs[k] - done[k] ELSE Piece
                t == Taken(want, done[k])
            IN /\ done' = [done EXCEPT ![k] = @ + t]
               /\ ph' = IF t = 0 THEN "failed" ELSE "writing"      \* a short write goes on, an error does not
         /\ UNCHANGED <<outs, limit, k>>
NextOut == /\ ph = "writing" /\ k <= Len(outs) /\ done[k] = outs[k]
           /\ k' = k + 1
           /\ UNCHANGED <<outs, limit, done, ph>>
Exit == /\ ph = "writing" /\ k > Len(outs) /\ ph' = "success" /\ UNCHANGED <<outs, limit, k, done>>
Next == Write \/ NextOut \/ Exit
Complete == ph = "success" => done = outs
Enough == ph = "failed" => \E j \in DOMAIN outs : outs[j] > limit
=============================================================================
