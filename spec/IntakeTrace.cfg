SPECIFICATION Spec
CONSTANTS Half = 5000
 Window = 100000
INVARIANT Sound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
