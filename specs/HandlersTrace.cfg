SPECIFICATION Spec
INVARIANT Judged
CHECK_DEADLOCK FALSE
