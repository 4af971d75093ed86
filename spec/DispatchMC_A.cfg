SPECIFICATION Spec
CONSTANTS N = 2 MaxReg = 3 Small = TRUE
INVARIANTS Lookup Unique Lattice Gen GenC
CHECK_DEADLOCK FALSE
