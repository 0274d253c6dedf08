SPECIFICATION Spec
CONSTANTS MaxN = 6 MaxRuns = 3
INVARIANTS Lockstep Newest Tracking Counts Ready Stamped
PROPERTY Finishes
CHECK_DEADLOCK FALSE
