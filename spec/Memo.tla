-------------------------------- MODULE Memo --------------------------------
(* Compression and decompression are functions: whatever was asked before, by *)
(* whichever process, the same request has the same answer. The answers are   *)
(* not known beforehand: the machine fills the table of the function as it    *)
(* goes, and a recorded history is a behaviour of it or is rejected.          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES i, table
History == JsonDeserialize(IOEnv.TRACE)       \* sequence of [req, resp, proc]
Init == i = 0 /\ table = <<>>
Next == /\ i < Len(History)
        /\ i' = i + 1
        /\ LET e == History[i'] IN
           IF e.req \in DOMAIN table
           THEN /\ UNCHANGED table
                /\ (table[e.req] # e.resp => PrintT("@" \o ToJson([reject |-> i', why |-> "another answer to the same request"])))
           ELSE table' = table @@ (e.req :> e.resp)
\* the table only grows
Function == [][DOMAIN table \subseteq DOMAIN table' /\ \A r \in DOMAIN table : table'[r] = table[r]]_<<i, table>>
=============================================================================
