CONSTANTS NW = 3
INIT TInit
NEXT TNext
INVARIANTS Answers Targets NothingElse
CHECK_DEADLOCK TRUE
