SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Dirs = {"out", "out/b"}
  Texts = {"u", "loss_function"}
  Mode = "clean"
INVARIANTS NothingLost
CHECK_DEADLOCK FALSE
