SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Dirs = {"out", "out/b"}
  Texts = {"u", "loss_function"}
  Mode = "fixed"
INVARIANTS Found
CHECK_DEADLOCK FALSE
