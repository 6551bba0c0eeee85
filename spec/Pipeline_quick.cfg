SPECIFICATION Spec
CONSTANTS NX = 3
NY = 4
NZ = 2
MaxOps = 3
Emit = TRUE
Chunks = {3, 5, 12}
Lims <- QuickLims
INVARIANTS Placed Partition EmitCase
CHECK_DEADLOCK FALSE
