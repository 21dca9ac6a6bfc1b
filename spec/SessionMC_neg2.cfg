SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Dirs = {"d1", "d2"}
  Names = {"f"}
  Cached = FALSE
  Relative = TRUE
INVARIANTS ShowsDefined BuiltinAlways

CHECK_DEADLOCK FALSE
