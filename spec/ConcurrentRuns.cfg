INIT Init
NEXT Next
CONSTANTS
 Pieces = 1
 Scenarios = {1, 2, 3, 4}
 Emit = TRUE
INVARIANTS AsAlone InputsKept
CHECK_DEADLOCK FALSE
