SPECIFICATION Spec
CONSTANTS Owners = {1, 2}  Views = {1, 2}  Steps = 5
INVARIANTS Valid NoLeak Tell
CHECK_DEADLOCK FALSE
