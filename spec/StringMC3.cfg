INIT Init
NEXT Next
CONSTANTS Alphabet = {97, 98, 99}
MaxH = 6
MaxN = 3
Extra = 100
INVARIANTS Right Sound Laws Emit
CHECK_DEADLOCK FALSE
