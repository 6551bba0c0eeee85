SPECIFICATION Spec
CONSTANTS
  Values <- Vals
  MaxLen = 6
  NSamp = 10
  Emit = FALSE
INVARIANTS MadShift MadScale MadOrder Breakdown MomentShift MomentPoint Percentiles NoExcess Mirror OrderFree Excess LogRight EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
