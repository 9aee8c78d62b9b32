CONSTANTS MaxN = 1000
INIT TInit
NEXT TNext
INVARIANTS SizeEdges Order Grouped Reduced
CHECK_DEADLOCK TRUE
