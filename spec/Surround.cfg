INIT Init
NEXT Next
CONSTANTS
  Asked = {}
 Sought = {}
 MaxLen = 4
 MaxOdd = 2
 What = "odd"
INVARIANTS Same Known
CHECK_DEADLOCK FALSE
