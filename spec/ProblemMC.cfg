CONSTANTS K = 1 T = 2 S = 2 Depth = 0 MaxQ = 2 Groups = {{1}, {1, 2}}
INIT InitG
NEXT NextG
VIEW View
INVARIANTS NoDup QueueOk SubsOk
ACTION_CONSTRAINT Con
CHECK_DEADLOCK FALSE
