SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NREPRO = 3
  NWIG = 4
  MAXSTEPS = 4
  MAXWIG = 4
  DEEP = FALSE
INVARIANTS Type Alive RetFull RetStable NoSignal LastChance LimitKept
