SPECIFICATION GSpec
CONSTANTS Walks = 1
          Kind = "dyn"
          Depth = 0
INVARIANT RowsInv
CHECK_DEADLOCK FALSE
