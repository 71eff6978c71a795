SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Follows
INVARIANT Related
INVARIANT Answers
INVARIANT InputOk
