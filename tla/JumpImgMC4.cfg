SPECIFICATION Spec
CONSTANTS NR = 4 Kinds = {"quiet", "mid", "grow", "sat", "late"} Emit = TRUE
INVARIANTS NeverOnUnusable OnlyAdds Local Off SameInSlices Emitted
CHECK_DEADLOCK FALSE
