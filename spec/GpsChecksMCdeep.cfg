SPECIFICATION Spec
CONSTANTS Depth = 4 Masks = {0, 17, 32, 64, 256, 511} Health = 5000000
INVARIANTS Sustained Restart AirClear Kept Exact Limits
CHECK_DEADLOCK FALSE
