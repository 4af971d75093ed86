INIT Init
NEXT Next
CONSTANTS MaxD = 4 Sizes0 = {0, 1, 2}
INVARIANTS Typed Conserved Nothing TwoSteps Emit
CHECK_DEADLOCK FALSE
