CONSTANTS
  Lens = {2, 3, 4}
  Values <- Vals
  Budgets = {1, 3}
SPECIFICATION Spec
INVARIANTS Strongest Bounded Parseval Back
PROPERTIES Filled
CHECK_DEADLOCK FALSE
