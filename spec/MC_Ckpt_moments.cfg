SPECIFICATION Spec
CONSTANTS MaxT = 3 MaxActs = 6 Lost = "moments"
INVARIANTS Uninterrupted
CHECK_DEADLOCK FALSE
