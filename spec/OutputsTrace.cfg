SPECIFICATION Spec
CONSTANTS Unit = 10000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
