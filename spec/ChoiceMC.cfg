CONSTANTS
  Lens = {127, 128, 4095, 4096, 131072}
  Sizes = {1, 2}
SPECIFICATION Spec
INVARIANTS Judged Exact Holds Whole
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
