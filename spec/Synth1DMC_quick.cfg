SPECIFICATION Spec
CONSTANTS
  NCh = 2
  Emit = TRUE
INVARIANTS AllAlike ExcludesUnusable KeepsUsable EmitCase
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
