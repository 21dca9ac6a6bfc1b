SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxSel = 3
  ForgetScores = TRUE
INVARIANTS OwnCell
CHECK_DEADLOCK FALSE
