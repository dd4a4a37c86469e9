SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT DEEP = TRUE
INVARIANTS Monotone Dark Agree Between NoErrors
