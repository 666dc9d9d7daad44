SPECIFICATION Spec
INVARIANT Emit
INVARIANT Function
INVARIANT Idempotent
PROPERTY Local
CHECK_DEADLOCK FALSE
