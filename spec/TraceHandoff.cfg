SPECIFICATION TSpec
CONSTRAINT Seen
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
