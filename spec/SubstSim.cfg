CONSTANTS Depth = 36
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
