SPECIFICATION Spec
CONSTANTS W = 4
  MaxLen = 6
INVARIANTS RangeDone MaskDone PlaceDone OuterDone Emit
CHECK_DEADLOCK FALSE
