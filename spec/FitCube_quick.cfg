SPECIFICATION Spec
CONSTANTS
  NPix = 3
  Chunks = {1, 2}
  Workers = 2
  Orders = {0, 2}
  Emit = TRUE
INVARIANTS PixelOwnsFit SpectrumKept ReferenceMoved EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
