SPECIFICATION Spec
INVARIANTS Back Same Removes Refused Ends
CHECK_DEADLOCK FALSE
CONSTANTS DEEP = TRUE
