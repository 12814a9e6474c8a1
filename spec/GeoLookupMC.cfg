SPECIFICATION Spec
CONSTANT Step = 337
INVARIANTS Convex Periodic PoleClamp Plausible
CHECK_DEADLOCK FALSE
