SPECIFICATION MSpec
CONSTANT Depth = 3
INVARIANT Live
PROPERTY Steps
CHECK_DEADLOCK FALSE
