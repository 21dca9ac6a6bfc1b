SPECIFICATION Spec
CONSTANTS
  N = 3
  Inf = 99
INVARIANTS Ordered Outward Idempotent RefIsBin KeepsSelection Exact
CHECK_DEADLOCK FALSE
