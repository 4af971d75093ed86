INIT Init
NEXT Next
CONSTANTS MaxLen = 4
Alphabet = {45, 46, 48, 49, 50, 57, 101}
INVARIANTS Value NotPlain Zeros_ Shift Fraction Decided Emit
CHECK_DEADLOCK FALSE
