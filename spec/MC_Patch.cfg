SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  Wrong = FALSE
INVARIANTS Patch Needed Area
CHECK_DEADLOCK FALSE
