CONSTANTS MaxN = 4 Depth = 0
INIT InitG
NEXT NextG
VIEW View
INVARIANTS TypeOK OrderExistsIffAcyclic CondensationAcyclic
CHECK_DEADLOCK FALSE
