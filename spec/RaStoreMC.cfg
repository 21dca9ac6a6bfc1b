SPECIFICATION Spec
CONSTANTS Measures = {m2cnd, sdaa} Trials = {1, 2} Bins = {b1, b2} Runs = 3 Atomic = TRUE
INVARIANTS AlwaysWhole Unmixed InStep
PROPERTY Grows
