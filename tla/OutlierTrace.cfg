INIT TInit
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT NoValue = 2000000001
