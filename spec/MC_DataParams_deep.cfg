SPECIFICATION Spec
CONSTANTS
  Keys = {"eps", "b"}
  Nums = {1, 2}
  MaxSteps = 4
  InPlace = FALSE
INVARIANTS Untouched Stable Accepted
CHECK_DEADLOCK FALSE
