SPECIFICATION Spec
CONSTANTS Objs = {0, 1}  Keys = {1, 2}  Unknown = {9}  Vals = {1, 2}  Steps = 4
INVARIANTS ReadsBack KeysFixed
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
