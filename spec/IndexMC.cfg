INIT Init
NEXT Next
CONSTANTS MaxN = 4 Far = 2 MaxStep = 3
INVARIANTS Right Emit
CHECK_DEADLOCK FALSE
