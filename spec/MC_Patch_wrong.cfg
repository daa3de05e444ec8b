SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  Wrong = TRUE
INVARIANTS Patch Needed Area
CHECK_DEADLOCK FALSE
