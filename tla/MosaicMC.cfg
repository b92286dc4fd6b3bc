SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT Depth = 5
CONSTANT Emit = TRUE
INVARIANTS Holds Once Closed Fresh Times Flagged Between Better Emitted
