SPECIFICATION Spec
CONSTANTS
  N = 4
  HC = 12
  Emit = TRUE
INVARIANTS InHalf Folded ErrorsPositive TurnsAlong EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
