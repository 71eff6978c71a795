SPECIFICATION Spec
INVARIANTS InputOk Answers Final InWord
CHECK_DEADLOCK FALSE
