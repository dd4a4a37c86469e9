SPECIFICATION Spec
INVARIANTS Predicts Causal NoDipole
CHECK_DEADLOCK FALSE
CONSTANTS DEEP = TRUE
