SPECIFICATION Spec
CONSTANTS
  Bad = "other"
  Overlook = "quad"
  Deny = "none"
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
