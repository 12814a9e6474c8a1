SPECIFICATION Spec
CONSTANTS
 Cap = 30
 Watched = TRUE
INVARIANTS Ends Bounded
PROPERTIES Entry Exit Told
CHECK_DEADLOCK FALSE
