SPECIFICATION Spec
CONSTANTS Need = 2 Depth = 4 Types = {0, 5}
INVARIANTS Enough Prompt StillStarts Order Bounded
CHECK_DEADLOCK FALSE
