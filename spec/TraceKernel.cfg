SPECIFICATION KSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
