SPECIFICATION Spec
CONSTANTS
  MaxPlots = 3
  Careless = FALSE
INVARIANTS LegendComplete OnceEach EarlierInFront HiddenAbsent
PROPERTY Finishes
CHECK_DEADLOCK FALSE
