SPECIFICATION Spec
CONSTANTS Measures = {m2cnd, sdaa} Trials = {1, 2} Bins = {b1, b2} Runs = 2 Atomic = FALSE
INVARIANT AlwaysWhole
