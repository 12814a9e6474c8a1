SPECIFICATION Spec
CONSTANTS Wait = 1 Valid = 3 Most = 5
INVARIANTS Sound Aided Lost Fresh Fake
CHECK_DEADLOCK FALSE
