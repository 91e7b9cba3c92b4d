CONSTANTS
  MaxFrames = 3
  Big = FALSE
INIT Init
NEXT Next
INVARIANTS Parses AllWellFormed Judged Torn
CHECK_DEADLOCK FALSE
