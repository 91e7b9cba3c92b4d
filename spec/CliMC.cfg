CONSTANTS
  Modes = {1, 2}
  MaxCmds = 3
  Inits <- InitSet
  EmitFrom = 3
INIT Init
NEXT Next
INVARIANT OneContentEach
PROPERTIES OneOutput OthersAlone
CHECK_DEADLOCK FALSE
