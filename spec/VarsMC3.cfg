CONSTANTS Slots = {1, 2} MaxD = 2 MaxRoots = 3 Depth = 0 MaxAtoms = 3
INIT InitG
NEXT NextG
VIEW View
INVARIANTS TypeOk Windows SetAlgebra Commute
CHECK_DEADLOCK FALSE
