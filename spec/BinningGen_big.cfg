SPECIFICATION Spec
CONSTANTS
  Edges = 4
  K = 3
CHECK_DEADLOCK FALSE
