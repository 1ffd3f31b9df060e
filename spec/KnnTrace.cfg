SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT TraceFile = "trace.ndjson"
