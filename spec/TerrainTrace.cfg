SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
 Fresh = 5000000
 Again = 10000000
 Half = 5000
 Window = 100000
