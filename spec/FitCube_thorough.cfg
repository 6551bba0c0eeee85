SPECIFICATION Spec
CONSTANTS
  NPix = 4
  Chunks = {1, 2, 3}
  Workers = 2
  Orders = {0, 1, 2}
  Emit = TRUE
INVARIANTS PixelOwnsFit SpectrumKept ReferenceMoved EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
