SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT NR = 2
CONSTANT NC = 2
CONSTANT Emit = TRUE
INVARIANTS Result Invalid Kept Close None Clipped Some Emitted
