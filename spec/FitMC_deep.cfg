SPECIFICATION Spec
INVARIANTS Modes Exact Weaker Total Ratio Linear Back
CHECK_DEADLOCK FALSE
CONSTANTS DEEP = TRUE
