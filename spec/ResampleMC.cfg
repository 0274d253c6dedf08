SPECIFICATION Spec
CONSTANT MaxT = 6
INVARIANTS Agrees AtPlanTimes Holds
CHECK_DEADLOCK FALSE
