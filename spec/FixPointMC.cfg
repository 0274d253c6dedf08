SPECIFICATION Spec
CONSTANT M = 6
INVARIANTS Agree
CHECK_DEADLOCK FALSE
