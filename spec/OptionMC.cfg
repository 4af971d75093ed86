CONSTANTS
  MaxN = 8
  Chunk = 3
INIT Init
NEXT Next
INVARIANTS Pointwise Ends Measure Emit
CHECK_DEADLOCK FALSE
