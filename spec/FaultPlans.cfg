INIT Init
NEXT Next
CONSTANTS
 Calls = 24
 MaxFaults = 2
 Acts = {"short", "one", "intr", "fail", "kill"}
INVARIANTS InOrder
CHECK_DEADLOCK FALSE
