SPECIFICATION Spec
CONSTANTS P = 10 W = 3 MaxS = 3 MaxN = 4 Inclusive = TRUE
INVARIANTS InArea InCells Counted Separation
PROPERTY Progress
