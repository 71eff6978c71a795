SPECIFICATION Spec
INVARIANT InputOk Exact
CHECK_DEADLOCK FALSE
