SPECIFICATION Spec
CONSTANTS
  Lattice = 3
  NMax = 18
INVARIANTS CornersMap AreaIdentity OrientationFree AffineIsBilinear ChainRule HessRule Vanish DerivIdentity ChebODE Normal Tensor RuleOK
CHECK_DEADLOCK FALSE
