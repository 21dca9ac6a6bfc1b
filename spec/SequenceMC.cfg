SPECIFICATION Spec
CONSTANT MaxK = 9
INVARIANTS Probability Complement Half RaceStep
PROPERTY MoreIsOlder
CHECK_DEADLOCK FALSE
