SPECIFICATION PSpec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
