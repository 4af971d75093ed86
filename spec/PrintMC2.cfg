INIT Init
NEXT Next
CONSTANTS MaxN = 160
  MaxW = 33
  MaxRows = {1, 2, 3, 4, 5, 8, 9, 10, 11, 25, 26, 27, 30, 51, 52, 130}
  Old = FALSE
INVARIANTS Reads Distinct Emit
CHECK_DEADLOCK FALSE
