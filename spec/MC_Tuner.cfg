SPECIFICATION Spec
CONSTANTS
  N = 4
  Jobs = 2
  Earlier = 0
  Values = {0, 1, 2}
  Fault = "none"
INVARIANTS IsSearch AtMost
PROPERTY Finishes
CHECK_DEADLOCK FALSE
