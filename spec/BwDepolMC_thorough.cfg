SPECIFICATION Spec
CONSTANTS
  Width = 640000
  Smallest = 160000
  MaxParts = 8
  G = 1
  Lams = {20, 40, 90}
  Phis = {60, 61, 63, 50, 75, 20, 100, 0}
  Emit = FALSE
INVARIANTS MeanOfParts Tiles AtMostOne Opposite DepthZero Narrow EmitCase
CHECK_DEADLOCK FALSE
