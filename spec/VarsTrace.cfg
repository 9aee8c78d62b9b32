CONSTANTS Slots = {1, 2, 3, 4, 5, 6, 7, 8} MaxD = 4 MaxRoots = 60
INIT TInit
NEXT TNext
INVARIANTS TypeOk Windows SetAlgebra Answer Alive Describe Values Relations
CHECK_DEADLOCK TRUE
