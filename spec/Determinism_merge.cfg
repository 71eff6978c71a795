SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT MergedOrigin
INVARIANT MergedCovers
INVARIANT MergedDeterministic
