INIT Init
NEXT Next
CONSTANTS MaxPieces = 8
Typed = TRUE
Pieces <- TreePieces
INVARIANTS Agree NoWay Text1 Text2 White Holds Emit
CHECK_DEADLOCK FALSE
