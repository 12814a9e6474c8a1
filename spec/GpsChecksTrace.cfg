SPECIFICATION Spec
CONSTANTS Health = 10000000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
