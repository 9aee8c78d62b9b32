CONSTANTS NS = 4 NA = 4 Depth = 36
INIT InitR
NEXT NextR
INVARIANTS Faithful FaithfulBounds
CHECK_DEADLOCK FALSE
