CONSTANTS NSlots = 3 MaxCb = 3 Depth = 0
INIT InitM
NEXT NextM
VIEW ViewM
INVARIANTS Symmetric LinkedEntries
CHECK_DEADLOCK FALSE
