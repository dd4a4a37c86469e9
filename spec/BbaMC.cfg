SPECIFICATION Spec
INVARIANTS OneMagnet Restored Quiet Right Only NoBeam Verdicts
CHECK_DEADLOCK FALSE
CONSTANTS DEEP = FALSE
