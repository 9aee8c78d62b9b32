CONSTANTS MaxN = 8 Depth = 28
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
