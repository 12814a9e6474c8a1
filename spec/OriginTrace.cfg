SPECIFICATION Spec
CONSTANTS Settle = 12000000 Slack = 3000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
