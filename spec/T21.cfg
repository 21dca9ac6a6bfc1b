SPECIFICATION Spec
CONSTANTS
  Judge <- J
  Step <- NoStep
  St0 <- S0
CHECK_DEADLOCK FALSE
