INIT Init
NEXT Next
CONSTANTS MaxText = 2
  Wide = FALSE
  Ks = {0, 1, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64}
INVARIANTS Meaning Mirror Transitive ByPoint Emit
CHECK_DEADLOCK FALSE
