INIT Init
NEXT Next
CONSTANTS
 MaxLen = 2
 Values = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
INVARIANTS Extremes Places Type Between
CHECK_DEADLOCK FALSE
