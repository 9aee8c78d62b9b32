CONSTANTS NObj = 1 NCon = 0 Depth = 0
INIT InitG
NEXT NextM
VIEW ViewM
INVARIANTS NeverStatic LockHolds OneOnly
ACTION_CONSTRAINT PrintTr
CHECK_DEADLOCK FALSE
