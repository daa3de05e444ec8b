SPECIFICATION Spec
CONSTANTS Acts = {"linear", "square", "tanh"} MaxSeed = 1
INVARIANTS GradientOfLoss Bounded
CHECK_DEADLOCK FALSE
