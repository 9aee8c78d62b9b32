CONSTANTS Keys = {3} MaxOps = 3 Iters = 0 Depth = 0
INIT InitG
NEXT NextG
VIEW View
INVARIANTS TypeOk Multiset Feasible
ACTION_CONSTRAINT PrintTr
CHECK_DEADLOCK FALSE
