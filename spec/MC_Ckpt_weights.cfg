SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxActs = 6 Lost = "weights"
INVARIANTS Uninterrupted
CHECK_DEADLOCK FALSE
