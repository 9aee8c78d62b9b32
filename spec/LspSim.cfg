CONSTANTS Depth = 40
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
