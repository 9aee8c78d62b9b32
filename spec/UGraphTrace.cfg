CONSTANTS NNode = 4 NU = 3 NO = 3 NInp = 2 NGraph = 2
INIT TInit
NEXT TNext
INVARIANTS Answer Asked
CHECK_DEADLOCK TRUE
