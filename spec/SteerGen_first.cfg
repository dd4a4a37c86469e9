SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NREPRO = 5
  NWIG = 20
  KINDS = {"first"}
INVARIANTS Emitted
