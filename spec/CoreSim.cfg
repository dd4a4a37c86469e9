SPECIFICATION Spec
CONSTANTS MaxDepth = 12
 Emit = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Emitted LimitsHold Registry FieldOrder
