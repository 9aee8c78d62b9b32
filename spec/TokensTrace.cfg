CONSTANTS NSlots = 5 MaxCb = 12
INIT TInit
NEXT TNext
INVARIANTS Conforms SymmetricLinks Answers
CHECK_DEADLOCK TRUE
