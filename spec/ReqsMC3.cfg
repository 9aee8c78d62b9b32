CONSTANTS NObj = 3 Vals = {1, 2} Kinds = {2} MaxCb = 3 Depth = 0
INIT InitM
NEXT NextM
VIEW ViewM
INVARIANTS NeverSetIsDefault OneRegistration LightHasNone
CHECK_DEADLOCK FALSE
