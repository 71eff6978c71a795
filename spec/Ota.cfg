SPECIFICATION Spec
INVARIANTS InputOk Verdict Imported Related Deterministic
VIEW ViewNoAct
CHECK_DEADLOCK FALSE
