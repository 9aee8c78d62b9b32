CONSTANTS NW = 3 Depth = 52
INIT InitR
NEXT NextR
INVARIANTS Idem Undo Order
CHECK_DEADLOCK FALSE
