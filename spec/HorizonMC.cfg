SPECIFICATION Spec
CONSTANTS Half = 5
 Window = 100
 Delays = {0, 5, 10, 20, 25, 40}
 Dts = {10, 12, 15}
 MaxN = 9
INVARIANTS EachOnceInOrder FixedLag FarEnough
CHECK_DEADLOCK FALSE
