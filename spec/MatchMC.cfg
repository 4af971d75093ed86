SPECIFICATION Spec
CONSTANTS PDepth = 1 QDepth = 2
INVARIANTS Sound Complete General Gen GenQ
CHECK_DEADLOCK FALSE
