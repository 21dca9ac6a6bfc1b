SPECIFICATION Spec
CONSTANTS
  MaxK = 6
  Grid = 20
INVARIANT MedianExists
PROPERTIES FoundIsOlder LargerIsYounger OutsideIrrelevant
CHECK_DEADLOCK FALSE
