SPECIFICATION Spec
CONSTANTS
  NTask = 4
  Chunks = {1, 2, 3, 5}
  Workers = 3
  Emit = TRUE
INVARIANTS PerTask OncePerTask NoSideChannel EmitCase
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
