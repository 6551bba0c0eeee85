SPECIFICATION Spec
CONSTANTS NX = 3
NY = 4
NZ = 2
MaxOps = 4
Emit = TRUE
Chunks = {2, 3, 5, 7, 13}
Lims <- QuickLims
INVARIANTS Placed Partition EmitCase
CHECK_DEADLOCK FALSE
