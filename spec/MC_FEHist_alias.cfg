SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Accs = {"val", "w"}
  NCell = 2
  MaxSteps = 5
  Alias = TRUE
INVARIANTS Stable Refused OnlyValid
PROPERTIES NeverChanges
CHECK_DEADLOCK FALSE
