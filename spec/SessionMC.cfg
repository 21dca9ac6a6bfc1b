SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Dirs = {"d1", "d2"}
  Names = {"f"}
  Cached = FALSE
  Relative = FALSE
INVARIANTS ShowsDefined BuiltinAlways
PROPERTIES OnlySetConfigures ConfigPersists
CHECK_DEADLOCK FALSE
