SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Cells = 8
  Base = 2
  Digits = 3
INVARIANTS Permutes SortedSoFar InOrder Exact
CHECK_DEADLOCK FALSE
