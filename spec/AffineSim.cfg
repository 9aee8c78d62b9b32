CONSTANTS Deep = 4 Again = 3
INIT InitR
NEXT NextR
CHECK_DEADLOCK FALSE
