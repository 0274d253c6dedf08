SPECIFICATION Spec
CONSTANTS Walks = 300
          MaxBin = 5
INVARIANTS Elim EmitInv
CHECK_DEADLOCK FALSE
