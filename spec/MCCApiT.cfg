SPECIFICATION HSpec
CONSTANT MCSel = {0, 4, 5, 6, 7, 8, 12, 14, 19, 21}
INVARIANT OptsAreSane
PROPERTY FixedOnceStarted
