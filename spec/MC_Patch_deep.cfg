SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Wrong = FALSE
INVARIANTS Patch Needed Area
CHECK_DEADLOCK FALSE
