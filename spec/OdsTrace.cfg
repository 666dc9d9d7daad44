SPECIFICATION Spec
INVARIANT Conform
INVARIANT Finished
CHECK_DEADLOCK FALSE
