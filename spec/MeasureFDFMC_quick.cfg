SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxAmp = 3
  Steps = {1, 3}
  Shifts = {2, 7}
  Emit = TRUE
INVARIANTS NextToPeak Symmetric HasPeak EmitCase
PROPERTIES MoveWithAxis ScaleWithAmp
CHECK_DEADLOCK FALSE
