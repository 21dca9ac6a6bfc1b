SPECIFICATION Spec
CONSTANT Steps = 250
INVARIANTS AllPositive RConsistent HConsistent DerivativeOfCumulative UnitAt1km IncrementsAddUp
PROPERTIES CumulativeFalls ShiftLaw
CHECK_DEADLOCK FALSE
