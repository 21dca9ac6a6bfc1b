SPECIFICATION Spec
CONSTANTS
  MaxPlots = 6
  Careless = FALSE
INVARIANTS AxesJoined OnceShown OlderLeft Ordered NamesInside EveryEpochNamed
CHECK_DEADLOCK FALSE
