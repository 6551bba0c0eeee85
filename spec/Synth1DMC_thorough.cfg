SPECIFICATION Spec
CONSTANTS
  NCh = 3
  Emit = TRUE
INVARIANTS AllAlike ExcludesUnusable KeepsUsable EmitCase
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
