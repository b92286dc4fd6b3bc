SPECIFICATION Spec
CONSTANT N = 5
CONSTANT Steps = {10, 14, 300}
CONSTANT Emit = TRUE
INVARIANTS Ok Emitted
