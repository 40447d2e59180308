SPECIFICATION Fair
CONSTANTS Ring = 4 RepeatMax = 2 Lazy = 2 MaxHist = 6 MaxRoom = 2 MaxLit = 2
INVARIANTS Faithful InRing
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
CONSTANT Drain <- TwiceDrain
