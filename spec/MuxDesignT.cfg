SPECIFICATION Fair
CONSTANTS Amount = 7 Chunk = 3 LagChunk = 1 Variance = 3 MaxRoom = 6 MaxPiece = 2
INVARIANTS InOrder NothingLost OneMarker MarkerLast Balanced
PROPERTIES Waits MovesOn Finishes
CHECK_DEADLOCK FALSE
