CONSTANTS NObj = 2 Vals = {1} Kinds = {2} MaxCb = 2 Depth = 0
INIT InitM
NEXT NextE
CHECK_DEADLOCK FALSE
