INIT TInit
NEXT TNext
INVARIANTS NoExc Handled VarsOk BoundsOk EqsOk IneqsOk ObjectiveOk LevelsOk Answer Values Sizes
CHECK_DEADLOCK TRUE
ALIAS Short
