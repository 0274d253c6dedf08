SPECIFICATION Spec
CONSTANT Horizon = 3
INVARIANTS Optimal Attained NonNeg
CHECK_DEADLOCK FALSE
