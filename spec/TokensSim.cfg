CONSTANTS NSlots = 5 MaxCb = 12 Depth = 36
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
