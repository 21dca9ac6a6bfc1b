SPECIFICATION Spec
CONSTANTS Depth = 3 Drop = FALSE
INVARIANTS Conserved Kinds Positions BinnedEnds OrderFree Grouped
PROPERTY OnlyOutput
CHECK_DEADLOCK FALSE
