INIT Init
NEXT Next
CONSTANTS MaxPieces = 6
Typed = FALSE
Pieces <- NumbersPieces
INVARIANTS Agree NoWay White Emit
CHECK_DEADLOCK FALSE
