SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT TraceFile = "trace.ndjson"
