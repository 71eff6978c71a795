SPECIFICATION Spec
INVARIANTS InputOk MemberAnswer MemberCount TestAnswer MemoAnswer MemoCount ChainAnswer RandomAnswer
CHECK_DEADLOCK FALSE
