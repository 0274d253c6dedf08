SPECIFICATION TSpec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
