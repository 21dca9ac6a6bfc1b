SPECIFICATION Spec
CONSTANT Steps = 60
INVARIANTS RatePositive RateIsDerivative InverseError
PROPERTY Growing
CHECK_DEADLOCK FALSE
