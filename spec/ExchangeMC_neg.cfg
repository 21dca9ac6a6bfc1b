SPECIFICATION Spec
CONSTANTS Depth = 1 Drop = TRUE
INVARIANT Conserved
CHECK_DEADLOCK FALSE
