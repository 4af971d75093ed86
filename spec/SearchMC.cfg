SPECIFICATION Spec
CONSTANTS MaxLen = 4
  Vals = {1, 2, 3, 4}
INVARIANTS Within Answer SameElements Done OneResult Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
