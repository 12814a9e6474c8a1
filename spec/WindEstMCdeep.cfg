SPECIFICATION MCSpec
CONSTANTS FusePeriod = 2
 PredPeriod = 4
 RejectMax = 4
 MinSpeed2 = 9
 MaxT = 15
INVARIANTS RejectBounded
PROPERTIES NoLongRejection ResetMeansRestart ValidOnlyByStart RateLimit PredictLimit
CHECK_DEADLOCK FALSE
