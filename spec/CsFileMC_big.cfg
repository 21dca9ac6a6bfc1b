SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", " ", "'", "\"", "#", "\\", "-", "1"}
  MaxArgs = 3
  MaxLen = 2
INVARIANTS RoundTrip CommentsIgnored
CHECK_DEADLOCK FALSE
