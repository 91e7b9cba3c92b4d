CONSTANTS
  Big = FALSE
INIT Init
NEXT Next
INVARIANT Reads
CHECK_DEADLOCK FALSE
