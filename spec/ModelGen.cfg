SPECIFICATION Spec
CONSTANTS Walks = 300
          Grid = 3
INVARIANTS Sound WrittenRight EmitInv
CHECK_DEADLOCK FALSE
