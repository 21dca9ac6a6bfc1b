SPECIFICATION Spec
CONSTANTS
  Grid = 90
  Ages = 9
INVARIANT BelowEquilibrium
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
