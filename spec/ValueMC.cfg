INIT Init
NEXT Next
CONSTANTS Cap = 2
Sizes = {0, 1, 2, 3, 5}
MaxOps = 3
INVARIANTS Refines Storage Emit
CHECK_DEADLOCK FALSE
