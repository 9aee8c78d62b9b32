CONSTANTS NNode = 1 NU = 2 NO = 2 NInp = 1 NGraph = 1 Depth = 0
INIT InitM
NEXT NextM
VIEW ViewM
INVARIANTS Least Orderable PlanIsNeeded
CHECK_DEADLOCK FALSE
