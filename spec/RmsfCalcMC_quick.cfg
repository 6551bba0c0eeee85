SPECIFICATION Spec
CONSTANTS
  Lams = {20, 25, 30, 35, 60}
  Weights = {0, 1, 3}
  MaxChan = 4
  Step = 4
  NGrid = 14
  Emit = TRUE
INVARIANTS Peak Strongest Shifted Scaled Turned Absent Null EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
