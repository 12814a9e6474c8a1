SPECIFICATION Spec
INVARIANTS One DecWith3D Configured Exclusive Aligned AlignedHigh
PROPERTIES Faulty InFlight Back Drift
CHECK_DEADLOCK FALSE
