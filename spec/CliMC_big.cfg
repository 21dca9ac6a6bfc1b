SPECIFICATION Spec
CONSTANTS
  MaxClauses = 3
  Pres = "sequence"
INVARIANTS Direct FoldsAlike TypesOk
PROPERTY Earlier
CHECK_DEADLOCK FALSE
