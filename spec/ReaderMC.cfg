SPECIFICATION Spec
CONSTANTS
  Kinds = {"diam", "scc"}
  MaxRows = 2
  MaxNoise = 1
INVARIANTS ReadsAsWritten
CHECK_DEADLOCK FALSE
