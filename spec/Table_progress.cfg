SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Successors
INVARIANT Kept
INVARIANT Progress
