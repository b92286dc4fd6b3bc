SPECIFICATION Spec
CONSTANT NoValue = 2000000001
CONSTANT NP = 3
CONSTANT NG = 3
CONSTANT Emit = FALSE
INVARIANTS Complete Persistent Floor Unusable Unchecked1 Emitted
PROPERTY OnlyAdds
