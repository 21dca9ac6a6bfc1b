SPECIFICATION Spec
CONSTANTS
  N = 12
  W = 2
  MaxC = 6
  K = 2
  Slack = 1
  Widen = TRUE
INVARIANTS Correct Bounded CanGrow Laws
CHECK_DEADLOCK FALSE
