SPECIFICATION Spec
INVARIANT Means
INVARIANT Emit
CHECK_DEADLOCK FALSE
