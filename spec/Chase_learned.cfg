SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Follows
INVARIANT Learned
INVARIANT Accounted
INVARIANT InputOk
