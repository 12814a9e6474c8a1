SPECIFICATION TSpec
CONSTANTS Stale = 400000
 LpfDiv = 200
 LpfMax = 2000000
 LpfCap = 4000000
 StuckAfter = 10000000
 StuckVar = 100
 MinSeed = 100
 Slack = 1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
