SPECIFICATION Spec
CONSTANTS Walks = 100
          Kind = "vel"
INVARIANTS EmitInv
CHECK_DEADLOCK FALSE
