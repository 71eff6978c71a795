SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT WellFormed
INVARIANT ConstantsDeclared
INVARIANT Deterministic
INVARIANT CheckExact
