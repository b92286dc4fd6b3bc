SPECIFICATION Spec
CONSTANT Steps = 2
CONSTANT Emit = FALSE
CONSTANT Points <- P3
INVARIANTS Agree Truth Small OneReference Enough Emitted
PROPERTIES Stays Rigid GroupsMove
CHECK_DEADLOCK FALSE
