CONSTANTS Depth = 40
INIT InitR
NEXT NextR
INVARIANTS Within Again OneStep
CHECK_DEADLOCK FALSE
