SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Dirs = {"d1", "d2"}
  Names = {"f"}
  Cached = TRUE
  Relative = FALSE
INVARIANTS ShowsDefined BuiltinAlways

CHECK_DEADLOCK FALSE
