SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS RoundTrip Layout Gen
CHECK_DEADLOCK FALSE
