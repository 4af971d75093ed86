CONSTANTS
  MaxN = 12
  Chunk = 4
INIT Init
NEXT Next
INVARIANTS Pointwise Ends Measure
CHECK_DEADLOCK FALSE
