SPECIFICATION Spec
CONSTANTS Wait = 6 Delay = 2
INVARIANTS Selected Aligned Frame Silent All
PROPERTIES YawAlone Alive Ends
CHECK_DEADLOCK FALSE
