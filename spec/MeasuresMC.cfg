SPECIFICATION Spec
CONSTANTS
  N = 10
  W = 2
  MaxC = 5
  K = 2
  Slack = 1
  Widen = TRUE
INVARIANTS Correct Bounded CanGrow Laws
CHECK_DEADLOCK FALSE
