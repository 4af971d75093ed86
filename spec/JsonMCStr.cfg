INIT Init
NEXT Next
CONSTANTS MaxPieces = 6
Typed = FALSE
Pieces <- StringsPieces
INVARIANTS Agree NoWay Text1 Text2 White Emit
CHECK_DEADLOCK FALSE
