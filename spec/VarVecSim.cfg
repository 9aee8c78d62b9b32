CONSTANTS Vecs = {1, 2, 3} P = 13 Depth = 50 Small = {}
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
