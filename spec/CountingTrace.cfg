CONSTANTS Keys = {1, 2, 3} MaxOps = 0
INIT TInit
NEXT TNext
INVARIANTS TypeOk Multiset Answer Joined Split Ranges Misc Iterated
CHECK_DEADLOCK TRUE
