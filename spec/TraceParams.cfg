SPECIFICATION PSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
