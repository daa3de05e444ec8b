SPECIFICATION Spec
CONSTANTS
  N = 6
  Jobs = 3
  Earlier = 2
  Values = {0, 1, 2, 3}
  Fault = "none"
INVARIANTS IsSearch AtMost
PROPERTY Finishes
CHECK_DEADLOCK FALSE
