SPECIFICATION Spec
CONSTANT Hold = 1000000
INVARIANT Sound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
