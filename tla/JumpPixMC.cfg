SPECIFICATION Spec
CONSTANTS NG = 5 Emit = TRUE
INVARIANTS OnUsable Together Shrinks LeavesSome Blind Emitted
CHECK_DEADLOCK FALSE
