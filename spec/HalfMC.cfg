INIT Init
NEXT Next
CONSTANTS Mini = TRUE
INVARIANTS Meaning Back Monotone
CHECK_DEADLOCK FALSE
