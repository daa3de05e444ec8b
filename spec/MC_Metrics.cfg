SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {0, 1, 2, 3}
INVARIANTS NonNegative ZeroIffEqual Symmetric Ordered AnyOrder Triangle UnitFree RootOfMean
CHECK_DEADLOCK FALSE
