CONSTANTS Vecs = {1, 2} P = 13 Depth = 0 Small = {1, 2, 3, 4, 7, 8, 10, 13}
INIT InitG
NEXT NextG
VIEW View
INVARIANTS Disjoint Tiled Indexed Consistent
CHECK_DEADLOCK FALSE
