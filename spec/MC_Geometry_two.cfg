SPECIFICATION Spec
CONSTANTS
  Objs = {"a", "b"}
  NMax = 1
  Paths = {"p", "q"}
  PlanMax = 4
  Lattice = 1
INVARIANTS Tiles Sides SortCCW Uniform Grid
PROPERTIES FilesStay OneWriterPerStep
CHECK_DEADLOCK FALSE
