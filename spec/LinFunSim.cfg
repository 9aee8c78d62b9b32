CONSTANTS NF = 2 Depth = 40
INIT InitR
NEXT NextR
INVARIANTS Disjoint Shapes
CHECK_DEADLOCK FALSE
