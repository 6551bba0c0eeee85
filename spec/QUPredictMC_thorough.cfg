SPECIFICATION Spec
CONSTANTS
  N = 6
  G = 20
  MaxComp = 2
  Amps = {0, 1, 2, 4}
  Emit = FALSE
INVARIANTS Inverts DepthZeroIsFlat Additive Thin Total EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
