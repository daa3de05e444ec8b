SPECIFICATION Spec
CONSTANTS
  Objs = {"a", "b"}
  NMax = 3
  Paths = {"p", "q"}
  PlanMax = 3
  Lattice = 2
INVARIANTS Tiles Sides SortCCW Uniform Grid
PROPERTIES FilesStay OneWriterPerStep
CHECK_DEADLOCK FALSE
