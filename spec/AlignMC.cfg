SPECIFICATION Spec
INVARIANTS Transparent Identity Opposite
CHECK_DEADLOCK FALSE
CONSTANTS DEEP = FALSE
