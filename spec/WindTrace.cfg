SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
 Lost = 10000000
 Half = 5000
 Window = 100000
