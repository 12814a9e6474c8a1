SPECIFICATION MCSpec
CONSTANTS Proj = {1, 2}
 W = 6
 MaxN = 4
INVARIANTS Inverse OriginIsZero Refuses
CHECK_DEADLOCK FALSE
