SPECIFICATION Spec
CONSTANTS Top = 5
 Gates = {50, 100, 300}
 Depth = 2
INVARIANT Unchanged Changed Twins Flags
CHECK_DEADLOCK FALSE
