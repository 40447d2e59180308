SPECIFICATION Spec
CONSTANTS SC = 6
          NSYM = 3
          INCMAX = 12
          INCS = {0, 1, 5, 12}
          LIMS = {0, 16, 32}
INVARIANTS Usable Small Wide
CHECK_DEADLOCK FALSE
CONSTANT Blend <- HardBlend
