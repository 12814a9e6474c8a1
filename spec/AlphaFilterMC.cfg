SPECIFICATION MCSpec
INVARIANTS WeightOK NoOvershoot ResetExact ParKeepsState FullWeight ZeroWeight
CHECK_DEADLOCK FALSE
