SPECIFICATION Spec
INVARIANTS Looks Tightest
PROPERTIES Exact
CHECK_DEADLOCK FALSE
