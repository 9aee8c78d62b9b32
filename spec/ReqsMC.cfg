CONSTANTS NObj = 2 Vals = {1, 2} Kinds = {2} MaxCb = 2 Depth = 0
INIT InitG
NEXT NextM
VIEW ViewM
INVARIANTS NeverSetIsDefault OneRegistration LightHasNone
ACTION_CONSTRAINT PrintTr
CHECK_DEADLOCK FALSE
