SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Follows
INVARIANT Related
INVARIANT Splits
INVARIANT Learned
INVARIANT Accounted
INVARIANT InputOk
