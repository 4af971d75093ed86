SPECIFICATION Spec
CONSTANTS PDepth = 2 QDepth = 2
INVARIANTS Sound Complete General
CHECK_DEADLOCK FALSE
