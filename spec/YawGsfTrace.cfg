SPECIFICATION Spec
CONSTANTS
 Half = 5000
 Window = 100000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
