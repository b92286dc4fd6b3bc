SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT NP = 2
CONSTANT NG = 3
CONSTANT Emit = TRUE
INVARIANTS Complete Persistent Floor Unusable Unchecked1 Emitted
PROPERTY OnlyAdds
