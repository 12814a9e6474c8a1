SPECIFICATION Spec
CONSTANTS Shared = FALSE
 Dirty = FALSE
 Inputs = {0, 1, 2}
 Depth = 5
INVARIANT Deterministic Reset
CHECK_DEADLOCK FALSE
