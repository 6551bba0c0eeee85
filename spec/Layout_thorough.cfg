SPECIFICATION Spec
CONSTANTS SizesX = {1, 2, 3, 5}
SizesY = {1, 2, 3, 4}
SizesF = {2, 3, 4}
Planes = {1, 5}
Emit = TRUE
INVARIANTS Faithful InPlace SkyOrder EmitCase
CHECK_DEADLOCK FALSE
