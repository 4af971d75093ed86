SPECIFICATION Spec
CONSTANTS PDepth = 2 QDepth = 1
INVARIANTS Sound Complete General
CHECK_DEADLOCK FALSE
