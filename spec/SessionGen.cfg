SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Dirs = {"d1", "d2"}
  Names = {"f"}
CHECK_DEADLOCK FALSE
