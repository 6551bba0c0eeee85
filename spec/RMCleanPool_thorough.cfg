SPECIFICATION Spec
CONSTANTS
  NTask = 6
  Chunks = {1, 2, 3, 5}
  Workers = 4
  Emit = TRUE
INVARIANTS PerTask OncePerTask NoSideChannel EmitCase
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
