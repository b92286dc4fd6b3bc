SPECIFICATION Spec
CONSTANT Steps = 3
CONSTANT Emit = FALSE
CONSTANT Points <- P4
INVARIANTS Agree Truth Small OneReference Enough Emitted
PROPERTIES Stays Rigid GroupsMove
CHECK_DEADLOCK FALSE
