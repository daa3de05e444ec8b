SPECIFICATION Spec
CONSTANTS
  Vals = {0, 3}
  Variant = "notrans"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
