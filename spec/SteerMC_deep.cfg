SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NREPRO = 4
  NWIG = 5
  MAXSTEPS = 6
  MAXWIG = 5
  DEEP = TRUE
INVARIANTS Type Alive RetFull RetStable NoSignal LastChance LimitKept
