SPECIFICATION Spec
CONSTANTS
  Keyset = {"a", "b.c"}
  MaxEntries = 2
  MaxNoise = 2
INVARIANTS Denotation Typed
CHECK_DEADLOCK FALSE
