SPECIFICATION MCSpec
CONSTANTS Window = 3
 MaxCap = 4
 MaxT = 6
 MaxId = 5
 GuardEmpty = TRUE
INVARIANTS Bounded Sorted NoDup AnswerOK NoAnswerOK SameAnswers SameContent
PROPERTY OnlyShrinksOrAppends
CHECK_DEADLOCK FALSE
