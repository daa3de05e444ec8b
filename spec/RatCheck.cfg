SPECIFICATION Spec
CONSTANT B = 6
INVARIANTS DefAdd DefMul DefSub DefDiv DefLeq DefLt DefAbs DefFloor Field Seqs Rounding Closeness Roots ExpTail Parse
CHECK_DEADLOCK FALSE
