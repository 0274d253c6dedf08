SPECIFICATION TSpec
CONSTANT Part = "loop"
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
