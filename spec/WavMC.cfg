CONSTANTS
  MaxFrames = 1
  Words = {0, 1, 32768, 65535}
INIT Init
NEXT Next
INVARIANT Sane
CHECK_DEADLOCK FALSE
