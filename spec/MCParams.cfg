SPECIFICATION Spec
CONSTANTS Objs = {0, 1}  Keys = {1, 2}  Unknown = {9}  Vals = {1, 2}  Steps = 3
INVARIANTS ReadsBack KeysFixed Tell
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
