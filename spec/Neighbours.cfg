SPECIFICATION Spec
INVARIANT Correct Laws
PROPERTY Assignments
CHECK_DEADLOCK FALSE
