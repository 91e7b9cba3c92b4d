CONSTANTS
  MaxFrame = 131072
  MinFrame = 512
  Lengths <- Lens
INIT Init
NEXT Next
INVARIANTS Covers Sizes Powers LastFrame
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
