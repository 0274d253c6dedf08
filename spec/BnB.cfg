SPECIFICATION Spec
CONSTANTS K = 2
          Vals = {1, 2, 4}
INVARIANTS Partition Bounds Incumbent Optimal Terminates
CHECK_DEADLOCK FALSE
