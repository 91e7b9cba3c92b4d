CONSTANTS
  Counts = {1, 2, 2046, 2047, 2048, 2049}
  Bulks = {0, 2047, 2049}
  MaxOps = 4
  MaxLen = 9000
  EmitFrom = 1
INIT Init
NEXT Next
INVARIANTS Canonical Counted FullBlocks Short
CHECK_DEADLOCK FALSE
