SPECIFICATION Spec
CONSTANTS Values = {0, 2} MaxRefs = 4 Mode = "buffer"
INVARIANTS Unchanged
CHECK_DEADLOCK FALSE
