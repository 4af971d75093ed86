SPECIFICATION Spec
CONSTANTS
  Kinds = {"pod", "zeroinit", "object"}
  Cap0 = 2
  MaxN = 2
  Depth = 5
INVARIANTS Contents Inside Apart Once Emit
CHECK_DEADLOCK FALSE
