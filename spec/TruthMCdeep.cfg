SPECIFICATION Spec
CONSTANTS Steps = 22 Push = 20
INVARIANTS Follows Nested
CHECK_DEADLOCK FALSE
