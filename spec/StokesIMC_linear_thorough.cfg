SPECIFICATION Spec
CONSTANTS
  Fn = "linear"
  HighCoeffs = {0, 40000, 11000}
  LowCoeffs = {10000, 70000}
  MaxSteps = 4
  Emit = FALSE
INVARIANTS SameModel PathFree EmitCase
CHECK_DEADLOCK FALSE
