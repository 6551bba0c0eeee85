SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Emit = TRUE
INVARIANTS FileIsMemory NothingInvented EmitCase
PROPERTIES OthersKept
CHECK_DEADLOCK FALSE
