SPECIFICATION Spec
CONSTANTS S = 3
          L = 16
          W = 4
          PIECES = 2
          BLOCK = 2
          MAXLEN = 3
          RANGES = {1, 2, 3, 5, 7, 8, 11, 13, 17, 22, 24, 33, 35, 44, 51, 53, 62, 71}
INVARIANTS Undone AllUsed InRange Home
CONSTANT PutBack <- OneState
