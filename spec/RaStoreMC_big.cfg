SPECIFICATION Spec
CONSTANTS Measures = {m2cnd, sdaa} Trials = {1, 2} Bins = {b1, b2, b3} Runs = 4 Atomic = TRUE
INVARIANTS AlwaysWhole Unmixed InStep
PROPERTY Grows
