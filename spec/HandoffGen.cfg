SPECIFICATION GSpec
CONSTANTS Preempt = 2
          Spur = 1
          Walks = 1000
INVARIANTS Safe EmitInv
CHECK_DEADLOCK FALSE
