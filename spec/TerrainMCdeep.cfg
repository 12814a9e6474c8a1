SPECIFICATION Spec
CONSTANTS Fresh = 5 Again = 10 Top = 3
INVARIANT Sound
CHECK_DEADLOCK FALSE
