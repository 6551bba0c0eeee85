SPECIFICATION Spec
CONSTANTS
  Values <- Vals
  MaxLen = 4
  NSamp = 6
  Emit = TRUE
INVARIANTS MadShift MadScale MadOrder Breakdown MomentShift MomentPoint Percentiles NoExcess Mirror OrderFree Excess LogRight EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
