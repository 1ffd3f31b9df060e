SPECIFICATION Spec
CONSTANTS Depth = 2  Steps = 4
INVARIANTS Restored Silent OnlyTop Tell
PROPERTY EveryCallEnds
CHECK_DEADLOCK FALSE
