SPECIFICATION Spec
CONSTANTS CoefMax = 1
          ConstMax = 1
          Size = 2
          MaxRows = 1
INVARIANTS Optimal Unique Infeasible
CHECK_DEADLOCK FALSE
