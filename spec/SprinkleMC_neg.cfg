SPECIFICATION Spec
CONSTANTS P = 6 W = 2 MaxS = 2 MaxN = 3 Inclusive = FALSE
INVARIANT Separation
