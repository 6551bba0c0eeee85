SPECIFICATION Spec
CONSTANTS
  NCh = 2
  G = 2
  Lams = {40, 47, 66}
  Widths = {0, 160000}
  Weights = {0, 1, 3}
  Depths = {1, 10, 13, 19}
  Emit = TRUE
INVARIANTS SourceRecovered Bounded SensAtMostOne DepthZeroUnhurt Ordinary EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
