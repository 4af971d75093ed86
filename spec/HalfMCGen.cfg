INIT Init
NEXT Next
CONSTANTS Mini = FALSE
INVARIANTS Meaning Emit
CHECK_DEADLOCK FALSE
