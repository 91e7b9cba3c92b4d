INIT Init
NEXT Next
PROPERTIES Function
CHECK_DEADLOCK FALSE
