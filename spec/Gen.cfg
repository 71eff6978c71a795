SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT InputOk
CHECK_DEADLOCK FALSE
