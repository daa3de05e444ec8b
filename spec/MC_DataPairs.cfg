SPECIFICATION Spec
CONSTANTS
  TagSet = {1, 2, 3}
  PtSet = {"p", "q"}
  MaxTags = 3
  MaxPts = 2
  MaxC = 1
  MaxQ = 1
  Late = FALSE
INVARIANTS Paired Prefix Once
CHECK_DEADLOCK FALSE
PROPERTIES Terminates
