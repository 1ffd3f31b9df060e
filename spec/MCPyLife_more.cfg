SPECIFICATION Spec
CONSTANTS Owners = {1, 2}  Views = {1, 2}  Steps = 7
INVARIANTS Valid NoLeak
CHECK_DEADLOCK FALSE
