SPECIFICATION Spec
CONSTANTS Walks = 100
INVARIANTS EmitInv
CHECK_DEADLOCK FALSE
