SPECIFICATION Spec
CONSTANT Steps = 3
CONSTANT Emit = TRUE
CONSTANT Points <- P4
INVARIANTS Agree Truth Small OneReference Enough Emitted
CHECK_DEADLOCK FALSE
