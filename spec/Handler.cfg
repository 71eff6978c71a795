SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Kept
INVARIANT Relaxed
INVARIANT Justified
