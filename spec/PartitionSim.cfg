CONSTANTS Keys = {1, 2, 3} MaxOps = 0 Iters = 30 Depth = 50
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
