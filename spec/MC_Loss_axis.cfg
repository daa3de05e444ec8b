SPECIFICATION Spec
CONSTANTS
  Vals = {0, 3}
  Variant = "axis"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
