SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Plain = {1, 2, 3}
CONSTANT Emit = FALSE
INVARIANTS Once Valid Complete Emitted
CHECK_DEADLOCK FALSE
