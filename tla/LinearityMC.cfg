SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT Emit = TRUE
INVARIANTS Kept Unchanged Same Capped Flagged Emitted
