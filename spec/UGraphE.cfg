CONSTANTS NNode = 2 NU = 1 NO = 1 NInp = 2 NGraph = 1 Depth = 0
INIT InitM
NEXT NextE
INVARIANTS Least Orderable PlanIsNeeded
CHECK_DEADLOCK FALSE
