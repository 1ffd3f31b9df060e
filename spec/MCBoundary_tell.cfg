SPECIFICATION Spec
CONSTANTS
  MaxTris = 4
  Tell = TRUE
INVARIANTS GrowsDiscs CycleIsRim NeverStuck
CHECK_DEADLOCK FALSE
