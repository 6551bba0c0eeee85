SPECIFICATION Spec
CONSTANTS
  N = 4
  Dom = {"0", "1", "i", "-2"}
  Cutoffs = {6000, 16384}
  Windows = {2000000, 3000}
  Limits = {0, 1, 6}
  F2 = 20
  Gain = 50000
  Emit = TRUE
INVARIANTS LimitKept Conserved Untouched CutoffReached WindowReached EmitInit
PROPERTIES WindowOnly Forward Terminates
CHECK_DEADLOCK FALSE
