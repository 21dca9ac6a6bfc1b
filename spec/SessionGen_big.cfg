SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Dirs = {"d1", "d2"}
  Names = {"f"}
CHECK_DEADLOCK FALSE
