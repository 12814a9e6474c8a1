SPECIFICATION Spec
CONSTANTS Steps = 18 Push = 20
INVARIANTS Follows Nested
CHECK_DEADLOCK FALSE
