SPECIFICATION Spec
CONSTANTS
  N = 4
  G = 45
  MaxComp = 2
  Amps = {1, 2, 4}
  Emit = TRUE
INVARIANTS Inverts DepthZeroIsFlat Additive Thin Total EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
