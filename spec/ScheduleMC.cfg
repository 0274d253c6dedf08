SPECIFICATION Spec
CONSTANTS N = 4
          Dt = 2
          Tmax = 9
INVARIANTS Faithful Dense Runs NoOverlap
CHECK_DEADLOCK FALSE
