SPECIFICATION Spec
CONSTANTS CoefMax = 1
          ConstMax = 1
          Size = 2
          First = 1
          Total = 2
INVARIANTS Sound
CHECK_DEADLOCK FALSE
