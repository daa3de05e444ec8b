SPECIFICATION Spec
CONSTANTS
  TagSet = {1, 2, 3}
  PtSet = {"p", "q", "r"}
  MaxTags = 3
  MaxPts = 2
  MaxC = 2
  MaxQ = 3
  Late = FALSE
INVARIANTS Paired Prefix Once Layout
CHECK_DEADLOCK FALSE
