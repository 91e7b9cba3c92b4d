CONSTANTS
  Times = {0, 1, 2, 4, 7}
  MaxOps = 4
  Refusals = FALSE
  Disk = FALSE
  EmitFrom = 1
INIT Init
NEXT NextFile
INVARIANTS PositionsAgree CountAgrees SamplesAgree NextAgrees PrevAgrees BoundsAgree TruthfulOnly OnlyForward Stands Only
CHECK_DEADLOCK FALSE
