SPECIFICATION Spec
CONSTANTS Cols = {7}  Careless = TRUE
INVARIANTS InPlace Ascending Ends MoreIsOlder Moments Union
CHECK_DEADLOCK FALSE
