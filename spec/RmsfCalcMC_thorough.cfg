SPECIFICATION Spec
CONSTANTS
  Lams = {20, 24, 25, 30, 35, 60, 90}
  Weights = {0, 1, 3}
  MaxChan = 5
  Step = 4
  NGrid = 40
  Emit = TRUE
INVARIANTS Peak Strongest Shifted Scaled Turned Absent Null EmitCase
PROPERTY Finishes
CHECK_DEADLOCK FALSE
