SPECIFICATION TSpec
CONSTANT Window = 100000
INVARIANTS Bounded Sorted AnswerOK NoAnswerOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
