SPECIFICATION Spec
CONSTANT Wrap = 256
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
