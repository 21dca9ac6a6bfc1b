SPECIFICATION Spec
CONSTANTS
  N = 5
  Inf = 99
INVARIANTS Ordered Outward Idempotent RefIsBin KeepsSelection Exact
CHECK_DEADLOCK FALSE
