INIT Init
NEXT Next
CONSTANTS
 Pieces = 2
 Scenarios = {1, 2, 3, 4}
 Emit = FALSE
INVARIANTS AsAlone InputsKept
CHECK_DEADLOCK FALSE
