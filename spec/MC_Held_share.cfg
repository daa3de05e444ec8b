SPECIFICATION Spec
CONSTANTS Values = {0, 2} MaxRefs = 4 Mode = "share"
INVARIANTS Unchanged
CHECK_DEADLOCK FALSE
