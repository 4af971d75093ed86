INIT Init
NEXT Next
CONSTANTS MaxN = 56
  MaxW = 33
  MaxRows = {1, 2, 3, 4, 9, 26, 30}
  Old = TRUE
INVARIANTS Reads Distinct
CHECK_DEADLOCK FALSE
