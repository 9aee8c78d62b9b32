CONSTANTS NObj = 3 NCon = 2 Depth = 60
INIT InitR
NEXT NextR
INVARIANTS NeverStatic LockHolds OneOnly
CHECK_DEADLOCK FALSE
