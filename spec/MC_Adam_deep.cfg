SPECIFICATION Spec
CONSTANTS MaxT = 6 Shared = FALSE
INVARIANTS OwnHistory Limited First Schedule HalfSteps
CHECK_DEADLOCK FALSE
