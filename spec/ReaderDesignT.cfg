CONSTANTS B = 4
 Rooms = {1, 2, 3, 5}
 Most = 8
 Tail = 3
 Fails = TRUE
 Keeps = TRUE
SPECIFICATION Spec
INVARIANT Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
