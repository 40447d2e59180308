SPECIFICATION Fair
CONSTANTS Amount = 5 Chunk = 2 LagChunk = 1 Variance = 1 MaxRoom = 4 MaxPiece = 2
INVARIANTS InOrder NothingLost OneMarker MarkerLast Balanced
PROPERTIES Waits MovesOn Finishes
CHECK_DEADLOCK FALSE
CONSTANT May <- NoLag
