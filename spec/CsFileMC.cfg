SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", " ", "'", "\"", "#", "\\", "-", "1"}
  MaxArgs = 2
  MaxLen = 3
INVARIANTS RoundTrip CommentsIgnored
CHECK_DEADLOCK FALSE
