SPECIFICATION Spec
CONSTANTS MaxDepth = 3
 Emit = FALSE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS UpdateIdempotent UpdateOrder LimitsHold ReadBack Compose FrameSet Neutral CompensationKeepsDipole ChildrenFollow SwitchLaws Registry FieldOrder
