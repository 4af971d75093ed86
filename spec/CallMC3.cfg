SPECIFICATION Spec
CONSTANTS MaxPos = 1 MaxKw = 2 MaxArgs = 2 MaxKws = 2 Rich = TRUE Print1 = FALSE
INVARIANTS Types Complete Order Spill Unknown Gen
CHECK_DEADLOCK FALSE
