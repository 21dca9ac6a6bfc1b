SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxCount = 2
INVARIANTS Exactly Ascending CumIsAllLarger Totals
CHECK_DEADLOCK FALSE
