SPECIFICATION Spec
CONSTANTS
  Lattice = 2
  NMax = 10
INVARIANTS CornersMap AreaIdentity OrientationFree AffineIsBilinear ChainRule HessRule Vanish DerivIdentity ChebODE Normal Tensor RuleOK
CHECK_DEADLOCK FALSE
