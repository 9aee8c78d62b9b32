CONSTANTS Keys = {1, 2, 3} MaxOps = 0 Iters = 0 Depth = 60
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
