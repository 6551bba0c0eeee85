SPECIFICATION Spec
CONSTANTS
  MaxComp = 1
  MaxSteps = 4
  Fine = TRUE
  Emit = TRUE
INVARIANTS Periodic Bounded ZeroWavelength SlabIsAverage ScreenIsAverage Additive Continuous EmitCase
CHECK_DEADLOCK FALSE
