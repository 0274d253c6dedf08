SPECIFICATION Spec
CONSTANTS NQ = 1
          NT = 1
INVARIANTS Cols
CHECK_DEADLOCK FALSE
