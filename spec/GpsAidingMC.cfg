SPECIFICATION Spec
CONSTANTS
 Cap = 24
 Watched = FALSE
INVARIANTS Ends
PROPERTIES Entry Exit Told
CHECK_DEADLOCK FALSE
