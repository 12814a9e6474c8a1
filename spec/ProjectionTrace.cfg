SPECIFICATION TSpec
CONSTANTS Proj = {0, 1}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
