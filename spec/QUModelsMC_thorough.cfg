SPECIFICATION Spec
CONSTANTS
  MaxComp = 3
  MaxSteps = 5
  Fine = FALSE
  Emit = TRUE
INVARIANTS Periodic Bounded ZeroWavelength SlabIsAverage ScreenIsAverage Additive Continuous EmitCase
CHECK_DEADLOCK FALSE
