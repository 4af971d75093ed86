INIT Init
NEXT Next
CONSTANTS MaxD = 2 NArg = 3 Sizes0 = {1, 2}
INVARIANTS Pointwise Extent Symmetric Fresh Over Emit
CHECK_DEADLOCK FALSE
