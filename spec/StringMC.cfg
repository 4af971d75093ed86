INIT Init
NEXT Next
CONSTANTS Alphabet = {97, 98}
MaxH = 7
MaxN = 4
Extra = 99
INVARIANTS Right Sound Laws Emit
CHECK_DEADLOCK FALSE
