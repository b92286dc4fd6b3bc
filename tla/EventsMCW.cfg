SPECIFICATION Spec
CONSTANT Wide = TRUE
CONSTANT Emit = TRUE
INVARIANTS OnlyAdds Where Stays Core Needs Emitted
