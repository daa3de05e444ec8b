SPECIFICATION Spec
CONSTANTS
  Bad = "other"
  Overlook = "none"
  Deny = "none"
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
