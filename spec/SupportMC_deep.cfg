SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT NEL = 4
CONSTANT DEEP = TRUE
INVARIANTS OriginFree NotCarried Rigid Between SlopeFlat
