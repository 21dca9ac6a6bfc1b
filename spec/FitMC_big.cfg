SPECIFICATION Spec
CONSTANT Bins = 6
INVARIANTS Minimum Recovers ErrorsOrdered Agreement
PROPERTIES ScaleLaw Contracts
CHECK_DEADLOCK FALSE
