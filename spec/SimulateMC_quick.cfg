SPECIFICATION Spec
CONSTANTS
  Kinds = {"burn", "stack"}
  Parts <- PartsQ
  Freqs <- FreqsQ
  SIs <- SIq
  Ranges <- RangesQ
  MaxParts = 3
  Emit = TRUE
INVARIANTS Blank AtReference Limited Screens Quadratic AnyOrder InFront Behind ThinLayer Halves BeamRight EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
