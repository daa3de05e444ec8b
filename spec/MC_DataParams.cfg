SPECIFICATION Spec
CONSTANTS
  Keys = {"eps", "b"}
  Nums = {1, 2}
  MaxSteps = 3
  InPlace = FALSE
INVARIANTS Untouched Stable Accepted
CHECK_DEADLOCK FALSE
