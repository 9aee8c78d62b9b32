CONSTANTS Slots = {1, 2, 3, 4, 5, 6, 7, 8} MaxD = 4 MaxRoots = 24 Depth = 50 MaxAtoms = 4
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
