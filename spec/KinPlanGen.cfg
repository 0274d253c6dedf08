SPECIFICATION Spec
CONSTANTS Walks = 100
          Kind = "vel"
INVARIANTS EmitPlan
CHECK_DEADLOCK FALSE
