SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NT = 5
  T = 2
  PARTS = 2
  SIZES = {2, 3, 5}
INVARIANTS Idle Good Grid Spiral Ends
