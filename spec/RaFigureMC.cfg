SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxSel = 3
  ForgetScores = FALSE
INVARIANTS OwnCell InFrame InOrder Complete Tight
CHECK_DEADLOCK FALSE
