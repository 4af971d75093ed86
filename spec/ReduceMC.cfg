INIT Init
NEXT Next
CONSTANTS MaxD = 3 Sizes0 = {0, 1, 2, 3}
INVARIANTS Typed Conserved Nothing TwoSteps Emit
CHECK_DEADLOCK FALSE
