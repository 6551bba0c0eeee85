SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Emit = TRUE
INVARIANTS FileIsMemory NothingInvented EmitCase
PROPERTIES OthersKept
CHECK_DEADLOCK FALSE
