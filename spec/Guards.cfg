SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
