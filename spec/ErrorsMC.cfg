SPECIFICATION Spec
INVARIANTS Bounded Nothing Unregistered SupGone SupBound Drawable
CHECK_DEADLOCK FALSE
CONSTANTS DEEP = FALSE
