SPECIFICATION Spec
CONSTANTS MaxT = 4 MaxActs = 8 Lost = "none"
INVARIANTS Uninterrupted
CHECK_DEADLOCK FALSE
