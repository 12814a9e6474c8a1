SPECIFICATION Spec
CONSTANTS Lost = 4 Every = 1
INVARIANT Sound
CHECK_DEADLOCK FALSE
