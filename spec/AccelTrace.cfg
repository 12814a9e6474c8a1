SPECIFICATION Spec
CONSTANTS ClipFull = 100 Probation = 10000000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
