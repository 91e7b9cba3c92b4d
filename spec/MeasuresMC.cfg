INIT Init
NEXT Next
CONSTANTS
 MaxLen = 2
 Values = {1, 3, 4, 5, 7}
INVARIANTS Identity Symmetric Order Bounded
CHECK_DEADLOCK FALSE
