SPECIFICATION Spec
CONSTANTS N = 1 MaxReg = 3 Small = FALSE
INVARIANTS Lookup Unique Lattice Gen GenC
CHECK_DEADLOCK FALSE
