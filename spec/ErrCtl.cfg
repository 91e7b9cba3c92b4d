CONSTANTS
  Ns = {1, 2, 3, 5, 9, 31, 100, 129, 512}
  Levels = 2
  Bounds = {0, 1}
SPECIFICATION Spec
INVARIANTS BoundMet FewRounds AutoMeetsBound AutoSmallest
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
