SPECIFICATION Spec
CONSTANTS
  Kinds = {"burn", "stack"}
  Parts <- PartsT
  Freqs <- FreqsT
  SIs <- SIq
  Ranges <- RangesQ
  MaxParts = 2
  Emit = TRUE
INVARIANTS Blank AtReference Limited Screens Quadratic AnyOrder InFront Behind ThinLayer Halves BeamRight EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
