SPECIFICATION Spec
INVARIANT Inv
INVARIANT RegInv
INVARIANT Emit
PROPERTY LocalOp
PROPERTY RegLocalOp
CHECK_DEADLOCK FALSE
