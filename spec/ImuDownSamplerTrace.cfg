SPECIFICATION TSpec
CONSTANT Target = 1000000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
