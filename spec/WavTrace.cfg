CONSTANTS
  Prop = "C20"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
