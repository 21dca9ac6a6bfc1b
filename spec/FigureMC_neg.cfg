SPECIFICATION Spec
CONSTANTS
  MaxPlots = 3
  Careless = TRUE
INVARIANTS LegendComplete OnceEach EarlierInFront HiddenAbsent
CHECK_DEADLOCK FALSE
