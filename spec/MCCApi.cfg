SPECIFICATION HSpec
CONSTANT MCSel = {0, 5, 6, 8, 14, 19, 21}
INVARIANT OptsAreSane
PROPERTY FixedOnceStarted
