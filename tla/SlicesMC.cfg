SPECIFICATION Spec
CONSTANT MaxRows = 7
CONSTANT MaxWorkers = 4
INVARIANT Partition
INVARIANT Faithful
INVARIANT Bounds
CHECK_DEADLOCK FALSE
