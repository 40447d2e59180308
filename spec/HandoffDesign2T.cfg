SPECIFICATION Spec
CONSTANTS
  N = 6
  CAP = 2
  Bytes = {"c","p","e"}
INVARIANTS InOrder OnlyGood GoodSucceeds Buffers ContextMaps WaitersCounted NeverBothAsleep
PROPERTIES CallsEnd FreeEnds Finishes
CHECK_DEADLOCK FALSE
