SPECIFICATION Spec
CONSTANTS Depth = 2  Steps = 5
INVARIANTS Restored Silent OnlyTop Tell
PROPERTY EveryCallEnds
CHECK_DEADLOCK FALSE
