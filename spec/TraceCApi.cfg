SPECIFICATION CSpec
CONSTANTS MaxN = 0 MaxM = 0 MaxChunk = 0
MCSel = {}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
