INIT TInit
NEXT Next
CHECK_DEADLOCK FALSE
