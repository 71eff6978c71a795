SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Successors
INVARIANT Rooted
INVARIANT Rows
INVARIANT Closed
INVARIANT Consistent
INVARIANT Saturated
INVARIANT Exterior
