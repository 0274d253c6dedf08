SPECIFICATION Spec
CONSTANTS K = 1
INVARIANTS Hom Norm Rot Inv Cover Diff SkewCross
CHECK_DEADLOCK FALSE
