SPECIFICATION Spec
CONSTANTS
  Bad = "other"
  Overlook = "none"
  Deny = "lhs"
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
