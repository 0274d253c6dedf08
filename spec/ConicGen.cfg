SPECIFICATION Spec
CONSTANTS Walks = 400
          Grid = 4
          MaxLen = 3
INVARIANTS Certified Oracle EmitInv
CHECK_DEADLOCK FALSE
