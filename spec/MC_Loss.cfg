SPECIFICATION Spec
CONSTANTS
  Vals = {0, 3}
  Variant = "ok"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
