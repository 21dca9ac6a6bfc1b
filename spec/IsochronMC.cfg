SPECIFICATION Spec
CONSTANTS
  Grid = 12
  Ages = 4
INVARIANT BelowEquilibrium
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
