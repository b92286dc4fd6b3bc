SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT Depth = 7
CONSTANT Emit = FALSE
INVARIANTS Holds Once Closed Fresh Times Flagged Between Better Emitted
