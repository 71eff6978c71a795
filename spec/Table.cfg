SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Successors
INVARIANT Rooted
INVARIANT Rows
INVARIANT Distinct
INVARIANT Kept
INVARIANT Filled
