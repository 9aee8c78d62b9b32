CONSTANTS NS = 4 NA = 4
INIT TInit
NEXT TNext
INVARIANTS Answers RowsHeld NothingElse BoundsHeld
CHECK_DEADLOCK TRUE
