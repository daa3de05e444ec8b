SPECIFICATION Spec
CONSTANTS MaxModels = 3 MaxActs = 5 Fault = "live"
INVARIANTS Same Apart
CHECK_DEADLOCK FALSE
