SPECIFICATION Spec
CONSTANTS
  Objs = {"a"}
  NMax = 4
  Paths = {"p"}
  PlanMax = 2
  Lattice = 2
INVARIANTS Tiles Sides SortCCW Uniform Grid
PROPERTIES FilesStay OneWriterPerStep
CHECK_DEADLOCK FALSE
