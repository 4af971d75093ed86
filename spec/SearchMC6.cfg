SPECIFICATION Spec
CONSTANTS MaxLen = 6
  Vals = {1, 2, 3}
INVARIANTS Within Answer SameElements Done OneResult Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
