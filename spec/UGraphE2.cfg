CONSTANTS NNode = 1 NU = 2 NO = 2 NInp = 2 NGraph = 1 Depth = 0
INIT InitM
NEXT NextE
INVARIANTS Least Orderable PlanIsNeeded
CHECK_DEADLOCK FALSE
