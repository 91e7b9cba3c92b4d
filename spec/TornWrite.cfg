CONSTANTS
  Sizes = {0, 1, 2, 5, 8}
  MaxOutputs = 3
  MaxLimit = 9
  Piece = 3
INIT Init
NEXT Next
INVARIANTS Complete Enough
CHECK_DEADLOCK FALSE
