SPECIFICATION Spec
CONSTANTS Half = 5
 Window = 100
 MaxT = 85
 Delay = 0
 MaxDelay = 20
 Imin = 15
 Averaging = TRUE
 Dts = {10, 15}
 Tick = 5
INVARIANTS Bounded Ordered NotEarly
PROPERTIES Progress NoLoss
CHECK_DEADLOCK FALSE
