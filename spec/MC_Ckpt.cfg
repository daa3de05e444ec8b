SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxActs = 6 Lost = "none"
INVARIANTS Uninterrupted
CHECK_DEADLOCK FALSE
