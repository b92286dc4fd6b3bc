SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT Group = FALSE
CONSTANT Values = {0, 4}
CONSTANT Emit = TRUE
INVARIANTS Agreement Again Kept Never Together Same Settled Emitted
