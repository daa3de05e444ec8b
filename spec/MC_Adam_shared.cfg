SPECIFICATION Spec
CONSTANTS MaxT = 4 Shared = TRUE
INVARIANTS OwnHistory
CHECK_DEADLOCK FALSE
