SPECIFICATION Spec
CONSTANT Vals = {0, 3, 2000000001}
CONSTANT MaxN = 4
CONSTANT MaxRows = 2
INVARIANT AtMostN
INVARIANT Bounded
