INIT TInit
NEXT TNext
INVARIANTS Answers Dynamics Bounds Jacobian Value Shape
CHECK_DEADLOCK TRUE
