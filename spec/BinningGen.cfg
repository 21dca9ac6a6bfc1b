SPECIFICATION Spec
CONSTANTS
  Edges = 3
  K = 2
CHECK_DEADLOCK FALSE
