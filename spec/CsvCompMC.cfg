CONSTANTS
  MaxRows = 4
  Steps = {0, 1, 2, 60}
  Backwards = {1}
  Starts = {0, 41000, 86390}
  EmitFrom = 0
INIT Init
NEXT Next
INVARIANTS SideBySide Refused QuickRun ComeBack StoredAlike
CHECK_DEADLOCK FALSE
