SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT DEEP = FALSE
INVARIANTS Monotone Dark Agree Between NoErrors
