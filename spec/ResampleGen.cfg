SPECIFICATION Spec
CONSTANTS Walks = 100
          Kind = "query"
INVARIANTS EmitInv
CHECK_DEADLOCK FALSE
