SPECIFICATION Spec
CONSTANT G = 2
INVARIANTS ReverseFlips OnTrackIffZero PastEndIsBeyond NotBothEnds Pythagoras PointsToTrack SqrtOK
CHECK_DEADLOCK FALSE
