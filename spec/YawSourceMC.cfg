SPECIFICATION Spec
CONSTANT Limit = 1
INVARIANTS One Selected Known Recent Heard
PROPERTIES Level Latched
CHECK_DEADLOCK FALSE
