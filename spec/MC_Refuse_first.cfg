SPECIFICATION Spec
CONSTANTS Values = {1, 2, 3} MaxCalls = 4 Mode = "first"
INVARIANTS NoTrace
CHECK_DEADLOCK FALSE
