INIT Init
NEXT Next
CONSTANTS MaxD = 2 NArg = 2 Sizes0 = {0, 1, 2, 3}
INVARIANTS Pointwise Extent Symmetric Fresh Over Emit
CHECK_DEADLOCK FALSE
