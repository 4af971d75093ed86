SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  MaxLen = 2
  Steps = {"c", "r", "n"}
  Split = TRUE
INVARIANTS CountIsHeld FreedOnce UsedAlive ToldPossible AtEnd
CHECK_DEADLOCK FALSE
