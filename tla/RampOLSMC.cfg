SPECIFICATION Spec
CONSTANT NG = 4
CONSTANT Flags = {0, 1, 2, 4, 32, 36, 64}
INVARIANT SameScan
INVARIANT WellFormed
INVARIANT AllUsed
PROPERTY Growth
CHECK_DEADLOCK FALSE
