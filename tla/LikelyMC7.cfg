CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANT N = 7
CONSTANT Kinds = {0, 1, 2}
CONSTANT Steps = {12, 90}
CONSTANT Emit = FALSE
INVARIANTS Ok
