SPECIFICATION Spec
CONSTANTS Walks = 100
          MaxOps = 6
INVARIANTS EmitInv
CHECK_DEADLOCK FALSE
