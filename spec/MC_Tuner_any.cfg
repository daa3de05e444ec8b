SPECIFICATION Spec
CONSTANTS
  N = 3
  Jobs <- AnyNumber
  Earlier = 1
  Values = {0, 1, 2}
  Fault = "none"
INVARIANTS IsSearch AtMost
PROPERTY Finishes
CHECK_DEADLOCK FALSE
