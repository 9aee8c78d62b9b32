CONSTANTS NObj = 4 Vals = {1} Kinds = {2} MaxCb = 12 Depth = 40
INIT InitM
NEXT NextR
CHECK_DEADLOCK FALSE
