INIT Init
NEXT Next
CONSTANTS
 Calls = 8
 MaxFaults = 2
 Acts = {"short", "one", "intr", "fail", "kill"}
 Sizes = {0, 1, 3}
 Piece = 2
 Retries = TRUE
INVARIANTS Complete Pieces Ends
CHECK_DEADLOCK FALSE
