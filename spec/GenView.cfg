SPECIFICATION Spec
VIEW View
INVARIANT Inv
INVARIANT RegInv
PROPERTY LocalOp
PROPERTY RegLocalOp
CHECK_DEADLOCK FALSE
