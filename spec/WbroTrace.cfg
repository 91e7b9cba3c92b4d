CONSTANTS
  Prop = "C14"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
