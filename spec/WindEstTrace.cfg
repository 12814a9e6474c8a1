SPECIFICATION TSpec
CONSTANTS FusePeriod = 100000
 PredPeriod = 1000000
 RejectMax = 5000000
 MinSpeed2 = 90000
INVARIANTS RejectBounded
PROPERTIES NoLongRejection
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
