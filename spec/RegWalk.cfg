SPECIFICATION Spec
INVARIANTS Walk Words PrefixesOk SuffixesOk Continuous
CHECK_DEADLOCK FALSE
