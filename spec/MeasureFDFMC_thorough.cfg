SPECIFICATION Spec
CONSTANTS
  N = 6
  MaxAmp = 4
  Steps = {1, 3}
  Shifts = {2, 7}
  Emit = FALSE
INVARIANTS NextToPeak Symmetric HasPeak EmitCase
PROPERTIES MoveWithAxis ScaleWithAmp
CHECK_DEADLOCK FALSE
