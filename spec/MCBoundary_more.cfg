SPECIFICATION Spec
CONSTANTS
  MaxTris = 6
  Tell = FALSE
INVARIANTS GrowsDiscs CycleIsRim NeverStuck
CHECK_DEADLOCK FALSE
