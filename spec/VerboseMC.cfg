INIT Init
NEXT Next
CONSTANTS
 MaxFiles = 3
INVARIANTS OneEach
CHECK_DEADLOCK FALSE
