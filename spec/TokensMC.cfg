CONSTANTS NSlots = 3 MaxCb = 2 Depth = 0
INIT InitM
NEXT NextM
VIEW ViewM
INVARIANTS Symmetric LinkedEntries
CHECK_DEADLOCK FALSE
