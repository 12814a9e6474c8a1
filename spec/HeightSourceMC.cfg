SPECIFICATION Spec
CONSTANTS Modes = {0, 1, 2, 3}
INVARIANTS One Served NoWait
PROPERTIES Left Usable
CHECK_DEADLOCK FALSE
