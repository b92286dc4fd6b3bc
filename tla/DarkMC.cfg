SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT Emit = TRUE
INVARIANTS Integration Enough FewEnough Within Ordered Emitted
