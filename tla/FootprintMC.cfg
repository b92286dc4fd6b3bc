SPECIFICATION Spec
CONSTANT Offsets = {0, 3, 4, 6, 40, 300, 597, 600, 604, 700}
CONSTANT Sizes = {200, 600, 603}
CONSTANT Emit = TRUE
INVARIANTS ImagesOk MotionOk Emitted
