SPECIFICATION Spec
CONSTANTS Values = {0, 2} MaxRefs = 6 Mode = "fresh"
INVARIANTS Unchanged
CHECK_DEADLOCK FALSE
