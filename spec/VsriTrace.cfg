CONSTANTS
  Prop = "C15"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
