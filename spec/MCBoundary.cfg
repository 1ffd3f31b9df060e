SPECIFICATION Spec
CONSTANTS
  MaxTris = 5
  Tell = FALSE
INVARIANTS GrowsDiscs CycleIsRim NeverStuck
CHECK_DEADLOCK FALSE
