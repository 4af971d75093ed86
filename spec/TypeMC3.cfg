SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS RoundTrip Layout
CHECK_DEADLOCK FALSE
