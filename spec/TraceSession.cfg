SPECIFICATION TSpec
CONSTANTS MaxN = 0 MaxM = 0 MaxChunk = 0
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
