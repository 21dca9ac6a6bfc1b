SPECIFICATION Spec
CONSTANT Bins = 4
INVARIANTS Minimum Recovers ErrorsOrdered Agreement
PROPERTIES ScaleLaw Contracts
CHECK_DEADLOCK FALSE
