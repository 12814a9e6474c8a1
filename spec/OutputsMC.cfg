SPECIFICATION Spec
CONSTANTS Unit = 10000 Depth = 3 Gains = {10000, 2000, 400, 200} Periods = 150 Overshoot = 30 Rest = 60 Wide = FALSE
INVARIANT Sound
INVARIANT Contained
INVARIANT Decays
CHECK_DEADLOCK FALSE
