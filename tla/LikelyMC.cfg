CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANT N = 5
CONSTANT Kinds = {0, 1, 2, 3, 5}
CONSTANT Steps = {0, 12, 70}
CONSTANT Emit = TRUE
INVARIANTS Ok Emitted
