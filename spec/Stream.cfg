CONSTANTS
  MaxFrames = 2
  Chunks <- ChunkSet
  AllCuts = TRUE
INIT Init
NEXT Next
INVARIANTS WholeOrNothing FrameCount
CHECK_DEADLOCK FALSE
