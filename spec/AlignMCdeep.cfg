SPECIFICATION Spec
CONSTANTS Need = 2 Depth = 5 Types = {0, 5}
INVARIANTS Enough Prompt StillStarts Order Bounded
CHECK_DEADLOCK FALSE
