CONSTANTS NSlots = 4 MaxCb = 1 Depth = 0
INIT InitG
NEXT NextG
VIEW ViewM
INVARIANTS Symmetric LinkedEntries
ACTION_CONSTRAINT PrintTr
CHECK_DEADLOCK FALSE
