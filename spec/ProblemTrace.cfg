CONSTANTS K = 2 T = 4 S = 2
INIT TInit
NEXT TNext
INVARIANTS NoDup QueueOk SubsOk Answer Tasks Constraints Substs
CHECK_DEADLOCK TRUE
