SPECIFICATION Spec
CONSTANTS Cols = {3,4,5,7,8,12,16,25,40}  Careless = FALSE
INVARIANTS InPlace Ascending Ends MoreIsOlder Moments Union
CHECK_DEADLOCK FALSE
