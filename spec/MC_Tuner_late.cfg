SPECIFICATION Spec
CONSTANTS
  N = 3
  Jobs = 2
  Earlier = 0
  Values = {0, 1, 2}
  Fault = "late"
INVARIANTS IsSearch AtMost
PROPERTY Finishes
CHECK_DEADLOCK FALSE
