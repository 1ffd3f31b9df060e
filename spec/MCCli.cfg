SPECIFICATION Spec
CONSTANTS NumKeys = {"k", "n2"}  FlagKeys = {"f"}  Vals = {1, 2}  Devices = {"cpu", "gpu"}  Files = {"good", "bad", "none"}  Steps = 3
INVARIANTS LastWins RowsOnlyForPoints Tell
CHECK_DEADLOCK FALSE
