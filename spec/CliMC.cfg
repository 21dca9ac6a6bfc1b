SPECIFICATION Spec
CONSTANTS
  MaxClauses = 2
  Pres = "differential"
INVARIANTS Direct FoldsAlike TypesOk
PROPERTY Earlier
CHECK_DEADLOCK FALSE
