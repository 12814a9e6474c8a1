SPECIFICATION Spec
CONSTANTS ClipFull = 4 Probation = 6 Horizon = 20
INVARIANT Sound
INVARIANT Bounded
CHECK_DEADLOCK FALSE
