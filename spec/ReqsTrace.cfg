CONSTANTS NObj = 4 Vals = {1} Kinds = {2} MaxCb = 12
INIT TInit
NEXT TNext
INVARIANTS Answer Values
CHECK_DEADLOCK TRUE
