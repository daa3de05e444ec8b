SPECIFICATION Spec
CONSTANTS Acts = {"linear", "square", "tanh", "sigmoid"} MaxSeed = 8
INVARIANTS GradientOfLoss Bounded
CHECK_DEADLOCK FALSE
