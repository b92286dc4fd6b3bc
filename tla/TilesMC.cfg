SPECIFICATION Spec
CONSTANT Depth = 2
CONSTANT Plain = {2, 3}
CONSTANT Emit = TRUE
INVARIANTS Once Valid Complete Emitted
CHECK_DEADLOCK FALSE
