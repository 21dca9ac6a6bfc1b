SPECIFICATION Spec
CONSTANT Steps = 997
INVARIANTS RatePositive RateIsDerivative InverseError
PROPERTY Growing
CHECK_DEADLOCK FALSE
