SPECIFICATION Spec
CONSTANTS MaxModels = 3 MaxActs = 6 Fault = "none"
INVARIANTS Same Apart
CHECK_DEADLOCK FALSE
