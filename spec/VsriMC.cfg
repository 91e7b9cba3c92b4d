CONSTANTS
  Times = {0, 1, 2, 3, 4, 6, 9}
  MaxOps = 7
  Refusals = FALSE
  Disk = FALSE
  EmitFrom = 1
INIT Init
NEXT Next
INVARIANTS PositionsAgree CountAgrees SamplesAgree NextAgrees PrevAgrees BoundsAgree EmptyTruthful RunsAgree OnlyForward
PROPERTY Durable
CHECK_DEADLOCK FALSE
