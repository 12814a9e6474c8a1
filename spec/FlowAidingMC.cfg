SPECIFICATION Spec
CONSTANTS Cap = 11 Sels = {TRUE}
INVARIANTS Selected Clean Placed Silent
PROPERTIES Height Again Left Kept
CHECK_DEADLOCK FALSE
