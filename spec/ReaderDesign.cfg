CONSTANTS B = 3
 Rooms = {1, 2, 4}
 Most = 5
 Tail = 2
 Fails = TRUE
 Keeps = TRUE
SPECIFICATION Spec
INVARIANT Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
