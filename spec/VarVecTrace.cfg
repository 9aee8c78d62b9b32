CONSTANTS Vecs = {1, 2, 3} P = 13
INIT TInit
NEXT TNext
INVARIANTS Disjoint Tiled Indexed Consistent Answer Members Values Queries Mappings
CHECK_DEADLOCK TRUE
