SPECIFICATION Spec
CONSTANT MaxK = 40
INVARIANTS Probability Complement Half RaceStep
PROPERTY MoreIsOlder
CHECK_DEADLOCK FALSE
