SPECIFICATION Spec
CONSTANTS W = 5
  MaxLen = 8
INVARIANTS RangeDone MaskDone PlaceDone OuterDone Emit
CHECK_DEADLOCK FALSE
