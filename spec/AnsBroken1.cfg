SPECIFICATION Spec
CONSTANTS S = 3
          L = 16
          W = 4
          PIECES = 2
          BLOCK = 3
          MAXLEN = 7
          RANGES = {1, 11, 24, 62}
INVARIANTS Undone AllUsed InRange Home
CONSTANT PutBack <- LateBack
