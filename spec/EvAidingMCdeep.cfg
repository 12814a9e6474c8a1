SPECIFICATION Spec
CONSTANTS Wait = 12 Delay = 5
INVARIANTS Selected Aligned Frame Silent All
PROPERTIES YawAlone Alive Ends
CHECK_DEADLOCK FALSE
