SPECIFICATION Spec
CONSTANTS
  Judge <- J
  Step <- S
  St0 <- S0
CHECK_DEADLOCK FALSE
