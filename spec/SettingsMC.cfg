INIT Init
NEXT Next
CONSTANTS
 MaxError = 50
INVARIANTS InRange Defaults
PROPERTIES StaysRefused
CHECK_DEADLOCK FALSE
