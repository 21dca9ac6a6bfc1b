SPECIFICATION Spec
CONSTANTS
  W = 4
  MaxPos = 12
  MaxCraters = 3
  Noise = 1
  Guard = 1
  Eps = 2
INVARIANTS Conserved Covered InItsBin Contained
CHECK_DEADLOCK FALSE
