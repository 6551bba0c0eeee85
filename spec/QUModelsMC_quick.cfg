SPECIFICATION Spec
CONSTANTS
  MaxComp = 2
  MaxSteps = 4
  Fine = FALSE
  Emit = TRUE
INVARIANTS Periodic Bounded ZeroWavelength SlabIsAverage ScreenIsAverage Additive Continuous EmitCase
CHECK_DEADLOCK FALSE
