SPECIFICATION Spec
CONSTANTS Cols = {3,7,12}  Careless = FALSE
INVARIANTS InPlace Ascending Ends MoreIsOlder Moments Union
CHECK_DEADLOCK FALSE
