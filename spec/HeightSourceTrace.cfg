SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
 Half = 5000
 Window = 100000
 StaleVision = TRUE
