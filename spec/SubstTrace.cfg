INIT TInit
NEXT TNext
INVARIANTS NoExc Handled Values PointsOk CostOk Sizes
CHECK_DEADLOCK TRUE
ALIAS Short
