SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT TraceFile = "trace.ndjson"
