SPECIFICATION Spec
CONSTANTS
  Fn = "linear"
  HighCoeffs = {0, 40000}
  LowCoeffs = {10000, 70000}
  MaxSteps = 2
  Emit = TRUE
INVARIANTS SameModel PathFree EmitCase
CHECK_DEADLOCK FALSE
