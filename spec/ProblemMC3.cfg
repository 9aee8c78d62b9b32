CONSTANTS K = 2 T = 2 S = 1 Depth = 0 MaxQ = 3 Groups = {{1}, {1, 2}}
INIT InitG
NEXT NextG
VIEW View
INVARIANTS NoDup QueueOk SubsOk
ACTION_CONSTRAINT BoundNext
CHECK_DEADLOCK FALSE
