SPECIFICATION Spec
INVARIANTS Between Shifted Absent Equal Fewer Positive
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
          MaxD = 1
