SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Dirs = {"d1", "d2"}
  Names = {"f", "g"}
  Cached = FALSE
  Relative = FALSE
INVARIANTS ShowsDefined BuiltinAlways
PROPERTIES OnlySetConfigures ConfigPersists
CHECK_DEADLOCK FALSE
