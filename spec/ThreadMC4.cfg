SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  MaxLen = 4
  Steps = {"c", "r", "n"}
  Split = FALSE
INVARIANTS CountIsHeld FreedOnce UsedAlive ToldPossible AtEnd
CHECK_DEADLOCK FALSE
