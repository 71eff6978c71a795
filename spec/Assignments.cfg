SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Right
INVARIANT Complete
INVARIANT Lands
INVARIANT Facts
INVARIANT Composes
INVARIANT Maps
