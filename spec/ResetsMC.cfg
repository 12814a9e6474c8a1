SPECIFICATION Spec
CONSTANTS Wrap = 3 Pos = {0, 2} MaxOut = 3
INVARIANT OutConsistent
PROPERTIES Counted Reported NoHidden SpFollows
CHECK_DEADLOCK FALSE
CONSTRAINT Small
