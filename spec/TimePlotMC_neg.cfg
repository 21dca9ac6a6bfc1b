SPECIFICATION Spec
CONSTANTS
  MaxPlots = 3
  Careless = TRUE
INVARIANTS AxesJoined OnceShown OlderLeft Ordered NamesInside EveryEpochNamed
CHECK_DEADLOCK FALSE
