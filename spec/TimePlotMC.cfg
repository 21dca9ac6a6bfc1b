SPECIFICATION Spec
CONSTANTS
  MaxPlots = 3
  Careless = FALSE
INVARIANTS AxesJoined OnceShown OlderLeft Ordered NamesInside EveryEpochNamed
CHECK_DEADLOCK FALSE
