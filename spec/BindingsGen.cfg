SPECIFICATION GSpec
CONSTANTS Walks = 100
          Kind = "dyn"
          Depth = 12
INVARIANT EmitInv
CHECK_DEADLOCK FALSE
