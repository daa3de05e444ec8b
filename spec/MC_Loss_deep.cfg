SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  Variant = "ok"
INVARIANTS Agree
CHECK_DEADLOCK FALSE
