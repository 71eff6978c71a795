SPECIFICATION Spec
INVARIANTS InputOk Related Deterministic Total
VIEW ViewNoAct
CHECK_DEADLOCK FALSE
