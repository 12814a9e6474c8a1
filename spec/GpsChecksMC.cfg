SPECIFICATION Spec
CONSTANTS Depth = 3 Masks = {17, 64, 511} Health = 5000000
INVARIANTS Sustained Restart AirClear Kept Exact Limits
CHECK_DEADLOCK FALSE
