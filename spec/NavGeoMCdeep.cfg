SPECIFICATION Spec
CONSTANT G = 3
INVARIANTS ReverseFlips OnTrackIffZero PastEndIsBeyond NotBothEnds Pythagoras PointsToTrack SqrtOK
CHECK_DEADLOCK FALSE
