SPECIFICATION Spec
CONSTANTS MaxPos = 1 MaxKw = 2 MaxArgs = 2 MaxKws = 2 Rich = FALSE Print1 = TRUE
INVARIANTS Types Complete Order Spill Unknown Gen
CHECK_DEADLOCK FALSE
