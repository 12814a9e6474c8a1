SPECIFICATION MCSpec
CONSTANTS Target = 1000
 Dts = {200, 300, 700}
 MaxRx = 2100
VIEW View
INVARIANTS Conserved MeanPeriod AdjBounded IsRot
CHECK_DEADLOCK FALSE
