SPECIFICATION Spec
CONSTANTS
  MaxK = 5
  Values = {1, 2, 3}
  MaxInserts = 8
INVARIANTS KeepsSmallest RootIsMax HeapOrder Sorted
CHECK_DEADLOCK FALSE
