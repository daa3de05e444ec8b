SPECIFICATION Spec
CONSTANTS
  N = 3
  Vals = {0, 1, 2, 3}
  Diffs <- Signed
INVARIANTS ZeroIffEqual
CHECK_DEADLOCK FALSE
