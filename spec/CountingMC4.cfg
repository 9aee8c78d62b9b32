CONSTANTS Keys = {1} MaxOps = 4 Iters = 0 Depth = 0
INIT InitG
NEXT NextG
VIEW View
INVARIANTS TypeOk Multiset Feasible
CHECK_DEADLOCK FALSE
