SPECIFICATION Spec
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
