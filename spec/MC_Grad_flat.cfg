SPECIFICATION Spec
CONSTANTS Acts = {"square"} MaxSeed = 1
 ActT <- FlatAct
INVARIANTS GradientOfLoss
CHECK_DEADLOCK FALSE
