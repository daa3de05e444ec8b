SPECIFICATION Spec
CONSTANTS MaxT = 4 Shared = FALSE
INVARIANTS OwnHistory Limited First Schedule HalfSteps
CHECK_DEADLOCK FALSE
