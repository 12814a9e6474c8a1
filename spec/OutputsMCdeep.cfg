SPECIFICATION Spec
CONSTANTS Unit = 10000 Depth = 4 Gains = {10000, 5000, 2000, 800, 400, 200} Periods = 180 Overshoot = 30 Rest = 60 Wide = TRUE
INVARIANT Sound
INVARIANT Contained
INVARIANT Decays
CHECK_DEADLOCK FALSE
