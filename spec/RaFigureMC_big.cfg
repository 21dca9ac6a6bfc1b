SPECIFICATION Spec
CONSTANTS
  MaxN = 10
  MaxSel = 5
  ForgetScores = FALSE
INVARIANTS OwnCell InFrame InOrder Complete Tight
CHECK_DEADLOCK FALSE
