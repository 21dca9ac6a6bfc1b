SPECIFICATION Spec
CONSTANTS P = 8 W = 3 MaxS = 2 MaxN = 3 Inclusive = TRUE
INVARIANTS InArea InCells Counted Separation
PROPERTY Progress
