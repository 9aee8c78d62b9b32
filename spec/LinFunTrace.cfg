CONSTANTS NF = 2
INIT TInit
NEXT TNext
INVARIANTS Answers Variables FValue FVelocity Constant Jacobians Drift Values
CHECK_DEADLOCK TRUE
