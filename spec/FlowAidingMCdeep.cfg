SPECIFICATION Spec
CONSTANTS Cap = 14 Sels = {TRUE, FALSE}
INVARIANTS Selected Clean Placed Silent
PROPERTIES Height Again Left Kept
CHECK_DEADLOCK FALSE
