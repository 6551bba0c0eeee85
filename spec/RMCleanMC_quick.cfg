SPECIFICATION Spec
CONSTANTS
  N = 3
  Dom = {"0", "1", "i", "h"}
  Cutoffs = {6000, 16384}
  Windows = {2000000, 3000}
  Limits = {0, 2, 5}
  F2 = 20
  Gain = 50000
  Emit = TRUE
INVARIANTS LimitKept Conserved Untouched CutoffReached WindowReached EmitInit
PROPERTIES WindowOnly Forward Terminates
CHECK_DEADLOCK FALSE
