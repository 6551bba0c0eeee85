SPECIFICATION Spec
CONSTANTS
  N = 6
  G = 20
  MaxComp = 1
  Amps = {0, 2, 3}
  Emit = TRUE
INVARIANTS Inverts DepthZeroIsFlat Additive Thin Total EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
