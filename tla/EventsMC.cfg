SPECIFICATION Spec
CONSTANT Wide = FALSE
CONSTANT Emit = TRUE
INVARIANTS OnlyAdds Where Stays Core Needs Emitted
