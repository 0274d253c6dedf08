SPECIFICATION Spec
CONSTANTS Walks = 100
          Kind = "lq"
INVARIANTS EmitInv
CHECK_DEADLOCK FALSE
