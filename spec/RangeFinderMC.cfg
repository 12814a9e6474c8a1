SPECIFICATION MCSpec
CONSTANTS Stale = 3
 LpfDiv = 3
 LpfMax = 3
 LpfCap = 5
 StuckAfter = 3
 StuckVar = 2
 MinSeed = 1
 Slack = 0
 MaxT = 10
PROPERTIES Trustworthy Quiet ValidIsRegular
CHECK_DEADLOCK FALSE
