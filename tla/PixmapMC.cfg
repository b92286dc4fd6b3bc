SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT Depth = 2
CONSTANT Emit = TRUE
INVARIANTS Kept Untouched Active There Gaps Emitted EmittedCat
