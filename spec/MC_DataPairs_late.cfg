SPECIFICATION Spec
CONSTANTS
  TagSet = {1, 2, 3}
  PtSet = {"p", "q"}
  MaxTags = 2
  MaxPts = 1
  MaxC = 1
  MaxQ = 1
  Late = TRUE
INVARIANTS Paired Prefix 
CHECK_DEADLOCK FALSE
