SPECIFICATION Spec
CONSTANTS
  N = 4
  CAP = 2
  Bytes = {"-", "c", "p", "e", "l", "L"}
INVARIANTS InOrder OnlyGood GoodSucceeds Buffers ContextMaps WaitersCounted NeverBothAsleep
PROPERTIES CallsEnd FreeEnds Finishes
CHECK_DEADLOCK FALSE
