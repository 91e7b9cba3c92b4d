CONSTANTS
  Prop = "C01"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
