SPECIFICATION Spec
INVARIANTS Looks
PROPERTIES Exact Extrapolation
CHECK_DEADLOCK FALSE
