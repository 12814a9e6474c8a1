SPECIFICATION Spec
CONSTANTS ClipFull = 2 Probation = 3 Horizon = 9
INVARIANT Sound
INVARIANT Bounded
CHECK_DEADLOCK FALSE
