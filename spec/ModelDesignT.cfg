SPECIFICATION Spec
CONSTANTS SC = 6
          NSYM = 4
          INCMAX = 11
          INCS = {0, 1, 2, 5, 11}
          LIMS = {0, 16, 31, 32}
INVARIANTS Usable Small Wide
CHECK_DEADLOCK FALSE
