CONSTANTS NNode = 4 NU = 3 NO = 3 NInp = 2 NGraph = 2 Depth = 90
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
