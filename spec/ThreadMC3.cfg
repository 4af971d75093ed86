SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  MaxLen = 2
  Steps = {"c", "r", "n"}
  Split = FALSE
INVARIANTS CountIsHeld FreedOnce UsedAlive ToldPossible AtEnd
CHECK_DEADLOCK FALSE
