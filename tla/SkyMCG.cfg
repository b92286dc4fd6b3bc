SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT Group = TRUE
CONSTANT Values = {0, 4}
CONSTANT Emit = FALSE
INVARIANTS Agreement Again Kept Never Together Same Settled Emitted
