SPECIFICATION OSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
