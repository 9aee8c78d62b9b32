CONSTANTS NSlots = 4 MaxCb = 12 Depth = 0
INIT InitE
NEXT NextE
CHECK_DEADLOCK FALSE
