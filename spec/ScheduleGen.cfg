SPECIFICATION Spec
CONSTANTS Walks = 100
          Kind = "sched"
INVARIANTS EmitInv
CHECK_DEADLOCK FALSE
