CONSTANTS MaxN = 3 Depth = 0
INIT InitG
NEXT NextG
VIEW View
INVARIANTS TypeOK OrderExistsIffAcyclic CondensationAcyclic
ACTION_CONSTRAINT PrintTr
CHECK_DEADLOCK FALSE
