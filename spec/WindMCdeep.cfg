SPECIFICATION Spec
CONSTANTS Lost = 12 Every = 3
INVARIANT Sound
CHECK_DEADLOCK FALSE
