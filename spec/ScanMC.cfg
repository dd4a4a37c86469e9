SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 3
  T = 2
  PARTS = 2
  SIZES = {1, 3, 4}
INVARIANTS Idle Good Grid Spiral Ends
