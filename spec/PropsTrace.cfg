INIT TInit
NEXT TNext
INVARIANTS Answers
CHECK_DEADLOCK TRUE
