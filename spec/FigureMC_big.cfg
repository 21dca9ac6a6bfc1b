SPECIFICATION Spec
CONSTANTS
  MaxPlots = 5
  Careless = FALSE
INVARIANTS LegendComplete OnceEach EarlierInFront HiddenAbsent
PROPERTY Finishes
CHECK_DEADLOCK FALSE
