SPECIFICATION Spec
CONSTANTS
  Width = 640000
  Smallest = 160000
  MaxParts = 4
  G = 1
  Lams = {40, 90}
  Phis = {60, 63, 50, 75, 20}
  Emit = TRUE
INVARIANTS MeanOfParts Tiles AtMostOne Opposite DepthZero Narrow EmitCase
CHECK_DEADLOCK FALSE
