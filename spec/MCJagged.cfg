SPECIFICATION Spec
CONSTANTS Vals = {1, 2, 3}  MaxRows = 4  MaxLen = 2  Steps = 1
INVARIANTS Partition Faithful
CHECK_DEADLOCK FALSE
