CONSTANTS K = 2 T = 4 S = 2 Depth = 60 MaxQ = 99 Groups = {{1}, {2}, {3}, {1, 2}}
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
