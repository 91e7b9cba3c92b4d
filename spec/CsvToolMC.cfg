INIT Init
NEXT Next
CONSTANTS
 MaxRuns = 2
 EmitFrom = 2
 Places = 1
INVARIANTS ThereAndBack OneContentEach RoundTrip
PROPERTIES OnlyAsked NoneLost InputKept Failing
CHECK_DEADLOCK FALSE
