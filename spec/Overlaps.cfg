SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Resolved
INVARIANT Apart
INVARIANT Covered
INVARIANT Tests
