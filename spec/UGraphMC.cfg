CONSTANTS NNode = 2 NU = 1 NO = 1 NInp = 1 NGraph = 1 Depth = 0
INIT InitG
NEXT NextM
VIEW ViewM
INVARIANTS Least Orderable PlanIsNeeded
ACTION_CONSTRAINT PrintTr
CHECK_DEADLOCK FALSE
