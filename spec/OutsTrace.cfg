CONSTANTS NObj = 3 NCon = 2
INIT TInit
NEXT TNext
INVARIANTS Answers EnabledOutputs Inputs Locks
CHECK_DEADLOCK TRUE
