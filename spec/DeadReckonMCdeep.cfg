SPECIFICATION Spec
CONSTANTS Wait = 2 Valid = 5 Most = 7
INVARIANTS Sound Aided Lost Fresh Fake
CHECK_DEADLOCK FALSE
