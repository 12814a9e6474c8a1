SPECIFICATION Spec
CONSTANTS Fresh = 2 Again = 4 Top = 2
INVARIANT Sound
CHECK_DEADLOCK FALSE
