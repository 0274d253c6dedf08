SPECIFICATION Spec
CONSTANTS Walks = 500
INVARIANTS EmitInv
CHECK_DEADLOCK FALSE
