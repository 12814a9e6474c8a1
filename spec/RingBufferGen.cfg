SPECIFICATION GSpec
CONSTANTS Window = 100000
 Caps = {0, 1, 2, 3, 5, 12}
 Depth = 60
 Unit = 10000
INVARIANTS Emit Bounded Sorted AnswerOK NoAnswerOK
CHECK_DEADLOCK FALSE
