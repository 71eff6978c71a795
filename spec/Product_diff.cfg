SPECIFICATION Spec
VIEW ViewNoAct
CONSTRAINT Related
INVARIANTS InputOk ReportDiff
CHECK_DEADLOCK FALSE
