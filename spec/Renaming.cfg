SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Same
INVARIANT Satisfiable
INVARIANT RightUnique
INVARIANT Rejected
INVARIANT Found
INVARIANT InputOk
