SPECIFICATION Spec
INVARIANTS TypeOK InBounds NoLeak NoEarlyFree
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
