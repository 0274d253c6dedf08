SPECIFICATION TSpec
CONSTANT Part = "policy"
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
