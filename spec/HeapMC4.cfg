SPECIFICATION Spec
CONSTANTS Depth = 4 MaxH = 3 MaxB = 2
INVARIANTS TypeOK InBounds NoLeak NoEarlyFree
PROPERTIES StepSafe NoEscalation ReleaseRight
VIEW StateView
CHECK_DEADLOCK FALSE
