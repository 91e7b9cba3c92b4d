CONSTANTS
  MaxRows = 2
  Wide = FALSE
INIT Init
NEXT Next
INVARIANT Sane
CHECK_DEADLOCK FALSE
