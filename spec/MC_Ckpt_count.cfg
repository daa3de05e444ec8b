SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxActs = 6 Lost = "count"
INVARIANTS Uninterrupted
CHECK_DEADLOCK FALSE
