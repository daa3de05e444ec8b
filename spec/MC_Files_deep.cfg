SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  Dirs = {"out", "out/b"}
  Texts = {"u", "loss_function"}
  Mode = "right"
INVARIANTS NothingLost Found OnlyAsked
PROPERTIES Steps
CHECK_DEADLOCK FALSE
