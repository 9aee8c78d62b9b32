CONSTANTS Starts <- StartsDef Dims = {0, 1, 2, 3, 4}
INIT TInit
NEXT TNext
INVARIANTS Pairs Laws
CHECK_DEADLOCK TRUE
