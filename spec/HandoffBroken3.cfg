SPECIFICATION Spec
CONSTANTS
  N = 3
  CAP = 2
  Bytes = {"-", "p", "e", "l", "L"}
INVARIANTS InOrder OnlyGood GoodSucceeds Buffers ContextMaps WaitersCounted NeverBothAsleep
PROPERTIES CallsEnd FreeEnds Finishes
CHECK_DEADLOCK FALSE
CONSTANT Eod <- NoEod
