SPECIFICATION Spec
INVARIANT Judged
INVARIANT Done
CHECK_DEADLOCK FALSE
