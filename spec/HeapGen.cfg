SPECIFICATION Spec
CONSTANTS Depth = 14 MaxH = 4 MaxB = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
