SPECIFICATION Spec
CONSTANTS
  Judge <- J
  Step <- NoStep
  St0 = 0
CHECK_DEADLOCK FALSE
