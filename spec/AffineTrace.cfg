INIT TInit
NEXT TNext
INVARIANTS Refusals AType AValue Constant Columns Parts Recorded Bounds Values
CHECK_DEADLOCK TRUE
