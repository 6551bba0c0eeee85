SPECIFICATION Spec
CONSTANTS
  N = 3
  Emit = TRUE
INVARIANTS NaNExactly EmitCase
PROPERTIES Local
CHECK_DEADLOCK FALSE
