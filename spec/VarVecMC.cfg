CONSTANTS Vecs = {1, 2} P = 13 Depth = 0 Small = {1, 2, 3, 11}
INIT InitG
NEXT NextG
VIEW View
INVARIANTS Disjoint Tiled Indexed Consistent
ACTION_CONSTRAINT PrintTr
CHECK_DEADLOCK FALSE
