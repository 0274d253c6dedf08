SPECIFICATION Spec
CONSTANTS Walks = 100
          Kind = "dyn"
INVARIANTS EmitInv
CHECK_DEADLOCK FALSE
